use gaoya::minhash::*;
use gaoya::text::whitespace_split;
use gv::engine::*;
use gv::ensure;
use gv::gens;
use gv::mh::{Model, Thr};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{BufReader, Read};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Line {
    Text(String),
    /// not UTF-8
    Bad(Vec<u8>),
    /// a long line: the text repeated
    Long(String, u16),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Content {
    lines: Vec<Line>,
    crlf: bool,
    final_newline: bool,
    /// further derived lines before the last newline decision
    #[serde(default)]
    more: u16,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Insert(String),
    /// reader delivering at most `chunk` bytes per read
    Lines(Content, u8),
    File(Content),
    FilePar(Content),
    Missing(bool),
    Directory(bool),
    /// load again a path that an earlier operation used, whatever it holds now
    Again(u8, bool),
    /// new content for a path that was loaded before, then load it
    Rewrite(u8, Content, bool),
    /// reader that delivers complete lines and then keeps failing
    Failing(Content, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    b: usize,
    r: usize,
    thr: Thr,
    ops: Vec<Op>,
    queries: Vec<String>,
}
struct P;

impl Content {
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        let derived = (0..self.more).map(|k| Line::Text(format!("a b c w{} w{}", k % 17, k)));
        let lines: Vec<Line> = self.lines.iter().cloned().chain(derived).collect();
        let n = lines.len();
        for (i, l) in lines.iter().enumerate() {
            match l {
                Line::Long(t, k) => v.extend(t.repeat(*k as usize).as_bytes()),
                Line::Text(t) => v.extend(t.as_bytes()),
                Line::Bad(b) => v.extend(b.iter().filter(|b| **b != b'\n')),
            }
            if i + 1 < n || self.final_newline {
                v.extend(if self.crlf { "\r\n".as_bytes() } else { "\n".as_bytes() });
            }
        }
        v
    }
    /// the lines std's line reader yields: split at \n, one trailing \r dropped, no empty last line
    fn valid(&self) -> Vec<String> {
        let b = self.bytes();
        let mut parts: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
        let last_terminated = b.last() == Some(&b'\n');
        if parts.last() == Some(&&b""[..]) {
            parts.pop();
        }
        let n = parts.len();
        parts
            .iter()
            .enumerate()
            .map(|(i, p)| if (i + 1 < n || last_terminated) && p.last() == Some(&b'\r') { &p[..p.len() - 1] } else { p })
            .filter_map(|p| String::from_utf8(p.to_vec()).ok())
            .collect()
    }
}

struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Delivers the bytes (with interrupted reads in between), then fails on every further read.
struct Failing<'a> {
    rest: &'a [u8],
    chunk: usize,
    reads: u32,
    errors: u32,
}
impl Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.reads % 3 == 0 && !self.rest.is_empty() {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.rest.is_empty() {
            self.errors += 1;
            assert!(self.errors < 5000, "loading does not end: the reader was asked 5000 times after it failed");
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        let n = self.chunk.min(b.len()).min(self.rest.len());
        b[..n].copy_from_slice(&self.rest[..n]);
        self.rest = &self.rest[n..];
        Ok(n)
    }
}

fn scratch() -> PathBuf {
    let base = std::env::var("GV_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    static N: AtomicU64 = AtomicU64::new(0);
    let d = base.join(format!("gv-c18-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn check_state(c: &Case, x: &MinHashStringIndex, docs: &[String], mh: &MinHasher64V1<fnv::FnvBuildHasher>, ctx: &mut Ctx) -> Res {
    ensure!(x.size() == docs.len(), "size {} after {} documents", x.size(), docs.len());
    let shown = x.to_string();
    ensure!(shown.contains(&format!("size = {} ", docs.len())), "printed form {shown} of {} documents", docs.len());
    let mut m = Model::<u64>::new(c.b, c.r, c.thr.get(c.b * c.r));
    for (i, d) in docs.iter().enumerate() {
        m.insert(i as u32, mh.create_signature(whitespace_split(d)));
    }
    let mut qs: Vec<&String> = c.queries.iter().collect();
    qs.extend(docs.iter().take(6));
    qs.extend(docs.iter().rev().take(6));
    if docs.len() > 12 {
        qs.extend((1..8).map(|i| &docs[i * docs.len() / 8]));
        for p in [64usize, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096, 5000, 8192, 10_000, 16_384, 32_768, 50_000, 65_536, 100_000, 131_072] {
            qs.extend([p - 1, p, p + 1].iter().filter_map(|i| docs.get(*i)));
        }
    }
    if docs.len() > 1000 {
        ctx.label("more than 1000 documents");
    }
    for q in qs {
        let sig = mh.create_signature(whitespace_split(q));
        let mut want: BTreeMap<&str, usize> = BTreeMap::new();
        for i in m.within(m.must_cand(&sig), &sig) {
            *want.entry(docs[i as usize].as_str()).or_default() += 1;
        }
        let mut got: BTreeMap<&str, usize> = BTreeMap::new();
        for t in x.query(q) {
            *got.entry(t.as_str()).or_default() += 1;
        }
        ctx.cmp();
        ensure!(got == want, "query {q:.200?} returned {got:?}, expected {want:?} (stored {} documents)", docs.len());
        if docs.contains(q) {
            ensure!(got.contains_key(q.as_str()), "document {q:?} is not found by its own text");
        }
        if !want.is_empty() && want.values().sum::<usize>() < docs.len() {
            ctx.nontrivial();
        }
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "sequence of insertions and loads with generated file contents; non-trivial if some query returns a proper non-empty subset of the documents";
    const ASSUMPTIONS: &'static [&'static str] = &["the expected matches are computed from the library's own signatures (covered by C01/C02) by brute force"];
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let doc = || {
            prop_oneof![
                6 => prop::collection::vec(prop::sample::select(vec!["a", "b", "c", "d", "e", "f", "the", "ice", "cream"]), 0..7).prop_map(|v| v.join(" ")),
                1 => gens::text(12).prop_map(|t| t.replace(['\n', '\r'], " ")),
                1 => Just(String::new()),
                1 => Just("a b\rc".to_string()),
                1 => prop::sample::select(vec!["\u{feff}a b", "\u{feff}", " a b", "a b ", "  ", "\t", "a b\r", "\r", "\0", "a\u{85}b", "a b\u{2028}c", "# a b", "\"a b\"", "a,b"]).prop_map(|s| s.to_string()),
            ]
        };
        let bad = prop_oneof![
            Just(vec![0xffu8]), Just(vec![b'a', 0xc3, b' ', b'b']), prop::collection::vec(0x80u8..0xff, 1..4),
        ];
        let line = prop_oneof![900 => doc().prop_map(Line::Text), 100 => bad.prop_map(Line::Bad), 1 => (prop_oneof![Just("ice cream ".to_string()), Just("é".to_string())], prop_oneof![3 => 100u16..2000, 1 => 2000u16..9000]).prop_map(|(t, k)| Line::Long(t, k))];
        let content = move || (prop::collection::vec(line.clone(), 0..8), prop::bool::weighted(0.2), any::<bool>(), prop_oneof![3000 => Just(0u16), 30 => 1u16..100, 3 => 100u16..1200, 1 => 1200u16..3000]).prop_map(|(lines, crlf, final_newline, more)| Content { lines, crlf, final_newline, more });
        let op = prop_oneof![
            4 => doc().prop_map(Op::Insert),
            2 => (content(), 1u8..20).prop_map(|(c, k)| Op::Lines(c, k)),
            2 => content().prop_map(Op::File),
            3 => content().prop_map(Op::FilePar),
            1 => any::<bool>().prop_map(Op::Missing),
            1 => any::<bool>().prop_map(Op::Directory),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(k, p)| Op::Again(k, p)),
            1 => (any::<u8>(), content(), any::<bool>()).prop_map(|(k, c, p)| Op::Rewrite(k, c, p)),
            2 => (content(), 1u8..20).prop_map(|(mut c, k)| { c.final_newline = true; Op::Failing(c, k) }),
        ];
        let layout = prop_oneof![(1usize..10, 1usize..4), Just((42usize, 3usize))];
        (layout, gv::mh::thr_strategy(), prop::collection::vec(op, 0..7), prop::collection::vec(doc(), 1..4))
            .prop_map(|((b, r), thr, ops, queries)| Case { b, r, thr, ops, queries })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 100_000 } else { 2_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let content = || {
            (prop::collection::vec(prop::sample::select(vec!["a b", "", "ice cream", "\u{feff}x"]), 0..3), any::<bool>(), any::<bool>(), prop_oneof![3 => 1000u16..9000, 2 => 9000u16..20_000, 1 => Just(65_535u16)])
                .prop_map(|(l, crlf, final_newline, more)| Content { lines: l.into_iter().map(|s| Line::Text(s.to_string())).collect(), crlf, final_newline, more })
        };
        let op = prop_oneof![
            1 => Just(Op::Insert("a b c w1 w1".into())),
            1 => content().prop_map(|c| Op::Lines(c, 200)),
            2 => content().prop_map(Op::File),
            3 => content().prop_map(Op::FilePar),
            1 => (any::<u8>(), any::<bool>()).prop_map(|(k, p)| Op::Again(k, p)),
        ];
        let s = ((1usize..10, 1usize..4), gv::mh::thr_strategy(), prop::collection::vec(op, 1..4), Just(vec!["a b c w1 w1".to_string(), "ice cream".to_string()]))
            .prop_map(|((b, r), thr, ops, queries)| Case { b, r, thr, ops, queries });
        Some((s.boxed(), if t == Tier::Quick { 24 } else { 400 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let dir = Dir(scratch());
        let mut x = MinHashStringIndex::new(c.b, c.r, c.thr.get(c.b * c.r));
        let mh = MinHasher64V1::new(c.b * c.r);
        let mut docs: Vec<String> = vec![];
        // what each path used so far holds: lines of a file, or nothing
        let mut paths: Vec<(String, Option<Content>)> = vec![];
        let mut routes = std::collections::BTreeSet::new();
        for (k, op) in c.ops.iter().enumerate() {
            let path = dir.0.join(format!("f{k}"));
            let name = path.to_str().unwrap().to_string();
            let mut load = |x: &mut MinHashStringIndex, docs: &mut Vec<String>, name: &str, t: &Content, par: bool| -> Res {
                let v = t.valid();
                let r = if par { x.load_from_file_parallel(name) } else { x.load_from_file(name) };
                match r {
                    Ok(n) => ensure!(n == v.len(), "op {k}: load reports {n} lines, {} added", v.len()),
                    Err(e) => return Err(format!("op {k}: load of an existing file failed: {e}")),
                }
                docs.extend(v);
                routes.insert(if par { 3 } else { 2 });
                Ok(())
            };
            match op {
                Op::Insert(t) => {
                    x.insert(t.clone());
                    docs.push(t.clone());
                    routes.insert(0);
                }
                Op::Lines(t, chunk) => {
                    let b = t.bytes();
                    x.load_from_lines(&mut BufReader::with_capacity(16, Slow(&b, *chunk as usize)));
                    docs.extend(t.valid());
                    routes.insert(1);
                }
                Op::Failing(t, chunk) => {
                    let b = t.bytes();
                    let rd = Failing { rest: &b, chunk: *chunk as usize, reads: 0, errors: 0 };
                    x.load_from_lines(&mut BufReader::with_capacity(16, rd));
                    docs.extend(t.valid());
                    ctx.label("reader that fails after complete lines");
                }
                Op::File(t) | Op::FilePar(t) => {
                    std::fs::write(&path, t.bytes()).expect("scratch file");
                    let par = matches!(op, Op::FilePar(_));
                    if t.lines.iter().any(|l| matches!(l, Line::Bad(_))) {
                        ctx.label("file with undecodable lines");
                    }
                    if par && !docs.is_empty() {
                        ctx.label("parallel load into a filled index");
                    }
                    load(&mut x, &mut docs, &name, t, par)?;
                    paths.push((name, Some(t.clone())));
                }
                Op::Again(i, par) | Op::Rewrite(i, _, par) => {
                    if paths.is_empty() {
                        continue;
                    }
                    let i = *i as usize % paths.len();
                    if let Op::Rewrite(_, t, _) = op {
                        let _ = std::fs::remove_dir(&paths[i].0);
                        std::fs::write(&paths[i].0, t.bytes()).expect("scratch file");
                        paths[i].1 = Some(t.clone());
                        ctx.label("path with new content loaded");
                    }
                    match &paths[i].1 {
                        Some(t) => {
                            load(&mut x, &mut docs, &paths[i].0, t, *par)?;
                            ctx.label("path loaded again");
                        }
                        None => {
                            let r = if *par { x.load_from_file_parallel(&paths[i].0) } else { x.load_from_file(&paths[i].0) };
                            ensure!(!matches!(r, Ok(n) if n > 0), "op {k}: loading nothing reported {r:?}");
                        }
                    }
                }
                Op::Missing(par) => {
                    let r = if *par { x.load_from_file_parallel(&name) } else { x.load_from_file(&name) };
                    ensure!(r.is_err(), "op {k}: loading a missing file reported {r:?}");
                    paths.push((name, None));
                    ctx.label("missing file");
                }
                Op::Directory(par) => {
                    std::fs::create_dir(&path).expect("scratch directory");
                    let r = if *par { x.load_from_file_parallel(&name) } else { x.load_from_file(&name) };
                    ensure!(!matches!(r, Ok(n) if n > 0), "op {k}: loading a directory reported {r:?}");
                    paths.push((name, None));
                    ctx.label("directory instead of a file");
                }
            }
            check_state(c, &x, &docs, &mh, ctx).map_err(|e| format!("after op {k}: {e}"))?;
        }
        if routes.len() >= 3 {
            ctx.label("three or more loading routes mixed");
        }
        Ok(())
    }
}
fn main() {
    run_main::<P>()
}
