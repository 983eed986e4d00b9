//! C09 write/read round trips, C10 malformed input and failing readers/writers.

use super::p_edit::{check_graph, DG};
use super::p_ops::di_build;
use crate::engine::*;
use crate::gens::*;
use crate::refgraph::RG;
use flate2::read::GzDecoder;
use flate2::write::GzEncoder;
use flate2::Compression;
use graphbench::degengraph::DegenGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::BTreeSet;
use std::io::{self, BufRead, BufReader, Cursor, Read, Write};
use std::sync::{Arc, Mutex};

/// A sink that shares its contents, may write short, be interrupted, and fail after a limit.
#[derive(Clone)]
struct Sink {
    data: Arc<Mutex<Vec<u8>>>,
    limit: usize,
    mode: u8,
    chunk: usize,
    tick: u32,
    fail_flush: bool,
}

impl Sink {
    fn new() -> Sink {
        Sink { data: Default::default(), limit: usize::MAX, mode: 0, chunk: usize::MAX, tick: 0, fail_flush: false }
    }
    fn bytes(&self) -> Vec<u8> {
        self.data.lock().unwrap().clone()
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.tick += 1;
        if self.chunk != usize::MAX && self.tick % 5 == 3 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut d = self.data.lock().unwrap();
        let k = b.len().min(self.chunk).min(self.limit - d.len());
        if k == 0 {
            return match self.mode {
                0 => Err(io::Error::other("disk full")),
                _ => Ok(0),
            };
        }
        d.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fail_flush {
            return Err(io::Error::other("flush failed"));
        }
        Ok(())
    }
}

/// A reader that hands out small pieces, is interrupted now and then, and may fail at a position.
struct Flaky {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    fail_at: usize,
    tick: u32,
    kind: io::ErrorKind,
}

impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick += 1;
        if self.tick % 7 == 4 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.pos >= self.fail_at {
            return Err(io::Error::from(self.kind));
        }
        let k = b.len().min(self.chunk).min(self.data.len() - self.pos).min(self.fail_at - self.pos);
        b[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}

fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = GzEncoder::new(Vec::new(), Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

fn gunzip(data: &[u8]) -> io::Result<Vec<u8>> {
    let mut v = vec![];
    GzDecoder::new(data).read_to_end(&mut v)?;
    Ok(v)
}

fn buf_of(g: &mut Gen, data: Vec<u8>) -> Box<dyn BufRead> {
    match g.draw(2) {
        0 => Box::new(Cursor::new(data)),
        1 => Box::new(BufReader::with_capacity(1 + g.draw(20) as usize, Cursor::new(data))),
        _ => Box::new(BufReader::with_capacity(
            1 + g.draw(40) as usize,
            Flaky { data, pos: 0, chunk: 1 + g.draw(9) as usize, fail_at: usize::MAX, tick: 0, kind: io::ErrorKind::Other },
        )),
    }
}

/// Writes `x` through every way of writing, and hands each text and file to `look`.
fn write_all_ways<W: WriteToFile>(g: &mut Gen, cx: &mut Cx, dir: &CaseDir, x: &W, look: &mut dyn FnMut(&mut Gen, &mut Cx, &str, Vec<u8>, Option<String>)) {
    let s = Sink { chunk: if g.bool() { usize::MAX } else { 1 + g.draw(9) as usize }, ..Sink::new() };
    match x.write_buf(Box::new(s.clone())) {
        Ok(()) => look(g, cx, "write_buf", s.bytes(), None),
        Err(e) => cx.fail("write_buf/err", format!("{e}")),
    }
    for gzip in [false, true] {
        let name = match (gzip, g.draw(1)) {
            (false, 0) => "a.txt",
            (false, _) => "b.c.txt",
            (true, 0) => "a.txt.gz",
            (true, _) => "a.gz",
        };
        let path = dir.path(name);
        if g.bool() {
            // the file exists already, with longer content
            let junk = b"7 8\n".repeat(g.range(1, 3000));
            let junk = if gzip { [gz(&junk), junk].concat() } else { junk };
            std::fs::write(&path, junk).unwrap();
            cx.label("overwrites");
        }
        let r = if gzip { x.write_gzipped(&path) } else { x.write_txt(&path) };
        if let Err(e) = r {
            cx.fail("write/err", format!("{name}: {e}"));
            continue;
        }
        let raw = std::fs::read(&path).unwrap();
        let text = if gzip {
            match gunzip(&raw) {
                Ok(t) => t,
                Err(e) => {
                    cx.fail("write_gzipped/invalid", format!("{name}: {e}"));
                    continue;
                }
            }
        } else {
            raw
        };
        look(g, cx, if gzip { "write_gzipped" } else { "write_txt" }, text, Some(path));
    }
}

fn load_all_ways<L: LoadFromFile>(g: &mut Gen, cx: &mut Cx, text: &[u8], file: &Option<String>, mut look: impl FnMut(&mut Cx, &str, L)) {
    let mut results: Vec<(&str, io::Result<L>)> = vec![];
    if let Some(path) = file {
        results.push(("from_file", L::from_file(path)));
        if path.ends_with(".gz") {
            results.push(("from_gzipped", L::from_gzipped(path)));
        } else {
            results.push(("from_txt", L::from_txt(path)));
        }
    } else {
        let b = buf_of(g, text.to_vec());
        results.push(("from_buf", L::from_buf(b)));
    }
    for (how, r) in results {
        match r {
            Ok(x) => look(cx, how, x),
            Err(e) => cx.fail("load/err", format!("{how} of {file:?}: {e}")),
        }
    }
}

/// The edge lines as unordered pairs, parsed by hand.
fn parse_pairs(text: &[u8]) -> Option<Vec<(u32, u32)>> {
    let s = std::str::from_utf8(text).ok()?;
    let mut r = vec![];
    for l in s.strip_suffix('\n').unwrap_or(s).split('\n') {
        if s.is_empty() {
            break;
        }
        let (a, b) = l.split_once(' ')?;
        r.push((a.parse().ok()?, b.parse().ok()?));
    }
    Some(r)
}

pub fn c09(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(14).big(400, 20).giant(70_000, 6_000).loops();
    let dir = CaseDir::new();
    match g.weighted(&[4, 1, 1]) {
        0 => {
            let s = graph(g, &CFG);
            cx.input(&s);
            let rg = s.rg();
            // the format lists edges only, so isolated vertices are not part of it
            let used: BTreeSet<u32> = rg.edges().into_iter().flat_map(|(u, v)| [u, v]).collect();
            let want = RG::from_parts(used.iter().copied(), rg.edges());
            cx.label_if(used.len() < rg.n(), "isolated vertices");
            cx.label_if(!rg.loops().is_empty(), "loops");
            cx.nontrivial_if(rg.m() >= 2);
            let pool: Vec<u32> = rg.vertices().into_iter().take(6).collect();
            let mut look = |g: &mut Gen, cx: &mut Cx, how: &str, text: Vec<u8>, file: Option<String>| {
                cx.label_if(text.len() > 8192, "text over 8 KiB");
                match parse_pairs(&text) {
                    Some(p) => {
                        let mut p = norm_edges(p);
                        p.dedup();
                        cx.eq(&format!("{how}/text"), p, want.edges());
                    }
                    None => cx.fail(&format!("{how}/text"), format!("unexpected text {:?}", String::from_utf8_lossy(&text).chars().take(300).collect::<String>())),
                }
                load_all_ways::<EditGraph>(g, cx, &text, &file, |cx, how2, L| {
                    check_graph(cx, &format!("{how}/{how2}"), &L, &want, &pool);
                });
            };
            let G = edit_with_history(g, &s);
            match g.weighted(&[3, 1, 1, 1]) {
                0 => {
                    cx.label("EditGraph");
                    write_all_ways(g, cx, &dir, &G, &mut look)
                }
                1 => {
                    cx.label("EditDigraph");
                    let mut d = DG::default();
                    for v in &s.verts {
                        d.add_vertex(*v);
                    }
                    for (u, v) in &s.edges {
                        d.add_arc(*u, *v);
                        if g.chance(1, 6) {
                            d.add_arc(*v, *u);
                        }
                    }
                    let D: EditDigraph = di_build(g, &d);
                    write_all_ways(g, cx, &dir, &D, &mut look)
                }
                _ if !rg.loops().is_empty() => write_all_ways(g, cx, &dir, &G, &mut look),
                2 => {
                    cx.label("OrdGraph");
                    let (_, ord) = order(g, &rg);
                    let O = OrdGraph::with_ordering(&G, ord.iter());
                    write_all_ways(g, cx, &dir, &O, &mut look)
                }
                _ => {
                    cx.label("DegenGraph");
                    let D = DegenGraph::from_graph(&G);
                    write_all_ways(g, cx, &dir, &D, &mut look)
                }
            }
        }
        k => {
            let n = if g.chance(1, 20) { g.range(1000, 3000) } else { g.range(0, 30) };
            let mode = g.draw(2);
            let xs: Vec<u32> = (0..n)
                .map(|_| match mode {
                    0 => g.draw(20) as u32,
                    1 => g.draw(u32::MAX as u64) as u32,
                    _ => *g.pick(&[0, 1, 9, 10, 99, 100, u32::MAX, u32::MAX - 1, i32::MAX as u32, i32::MAX as u32 + 1]),
                })
                .collect();
            cx.input(&(k, &xs));
            cx.nontrivial_if(n >= 2);
            if k == 1 {
                cx.label("Vec<Vertex>");
                let want: String = xs.iter().map(|x| format!("{x}\n")).collect();
                let mut look = |g: &mut Gen, cx: &mut Cx, how: &str, text: Vec<u8>, file: Option<String>| {
                    cx.ok(&format!("{how}/vec-text"), text == want.as_bytes(), || format!("text {:?}", String::from_utf8_lossy(&text)));
                    load_all_ways::<Vec<Vertex>>(g, cx, &text, &file, |cx, how2, L| {
                        cx.eq(&format!("{how}/{how2}/vec"), &L, &xs);
                    });
                };
                write_all_ways(g, cx, &dir, &xs, &mut look);
            } else {
                cx.label("VertexSet");
                let set: VertexSet = xs.iter().copied().collect();
                let want: BTreeSet<u32> = xs.iter().copied().collect();
                let mut look = |g: &mut Gen, cx: &mut Cx, how: &str, text: Vec<u8>, file: Option<String>| {
                    let mut lines: Vec<String> = String::from_utf8_lossy(&text).lines().map(|x| x.to_string()).collect();
                    lines.sort();
                    let mut w: Vec<String> = want.iter().map(|x| x.to_string()).collect();
                    w.sort();
                    cx.eq(&format!("{how}/set-text"), lines, w);
                    load_all_ways::<VertexSet>(g, cx, &text, &file, |cx, how2, L| {
                        cx.eq(&format!("{how}/{how2}/set"), bset(&L), want.clone());
                    });
                };
                write_all_ways(g, cx, &dir, &set, &mut look);
            }
        }
    }
}

// ------------------------------------------------------------------ C10

#[derive(Debug, PartialEq, Clone)]
enum Parsed<T> {
    Good(T),
    Bad,
    /// the format description does not say (a leading plus sign)
    Unspecified,
}

fn lines_of(text: &[u8]) -> Vec<&[u8]> {
    let mut ls: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    if ls.last() == Some(&&b""[..]) {
        ls.pop();
    }
    ls.into_iter().map(|l| l.strip_suffix(b"\r").unwrap_or(l)).collect()
}

fn number(t: &str) -> Parsed<u32> {
    if t.starts_with('+') && t.len() > 1 && t[1..].bytes().all(|b| b.is_ascii_digit()) {
        return Parsed::Unspecified;
    }
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return Parsed::Bad;
    }
    let mut v: u64 = 0;
    for b in t.bytes() {
        v = v * 10 + (b - b'0') as u64;
        if v > u32::MAX as u64 {
            return Parsed::Bad;
        }
    }
    Parsed::Good(v as u32)
}

/// All lines must have exactly `k` numbers.
fn reference(text: &[u8], k: usize) -> Parsed<Vec<Vec<u32>>> {
    let mut rows = vec![];
    let mut unspec = false;
    for l in lines_of(text) {
        let Ok(l) = std::str::from_utf8(l) else { return Parsed::Bad };
        let toks: Vec<&str> = if k == 1 { vec![l.trim()] } else { l.split_whitespace().collect() };
        if toks.len() != k {
            return Parsed::Bad;
        }
        let mut row = vec![];
        for t in toks {
            match number(t) {
                Parsed::Good(x) => row.push(x),
                Parsed::Bad => return Parsed::Bad,
                Parsed::Unspecified => unspec = true,
            }
        }
        rows.push(row);
    }
    if unspec {
        Parsed::Unspecified
    } else {
        Parsed::Good(rows)
    }
}

fn gen_number(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[12, 4, 2, 1, 1, 1, 1, 1]) {
        0 => g.draw(12).to_string().into_bytes(),
        1 => g.draw(u32::MAX as u64).to_string().into_bytes(),
        2 => g.pick(&["4294967295", "2147483648", "0", "007", "0000000000000000012"]).as_bytes().to_vec(),
        3 => g.pick(&["4294967296", "4294967297", "42949672950", "99999999999999999999999", "18446744073709551616"]).as_bytes().to_vec(),
        4 => g.pick(&["-1", "-0", "--1", "1-", "+", "-"]).as_bytes().to_vec(),
        5 => g.pick(&["1.0", "1e3", "0x1", "1_000", "1,2", "a", "NaN", "#", "//"]).as_bytes().to_vec(),
        6 => g.pick(&["\u{0663}", "\u{ff11}", "1\u{0301}", "\u{feff}1", "1\0", "\0"]).as_bytes().to_vec(),
        _ => (0..g.range(1, 3)).map(|_| g.draw(255) as u8).collect(),
    }
}

/// Mostly well-formed text with the occasional defect.
fn gen_text(g: &mut Gen, k: usize) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    let n = if g.chance(1, 25) { g.range(900, 1600) } else { g.range(0, 8) };
    let nasty = g.chance(2, 3);
    let crlf = g.chance(1, 4);
    let mut bad_at = if nasty && n > 0 { g.below(n) } else { usize::MAX };
    if n > 100 && nasty && g.bool() {
        bad_at = n - 1 - g.below(3);
    }
    for i in 0..n {
        let odd = i == bad_at;
        let toks = if odd && g.chance(1, 3) { g.range(0, k + 2) } else { k };
        if g.chance(1, 8) {
            t.extend(*g.pick(&[&b" "[..], b"\t", b"  "]));
        }
        for j in 0..toks {
            if j > 0 {
                if odd && g.chance(1, 6) {
                    t.extend(*g.pick(&[&b","[..], b"\0", b";", "\u{a0}".as_bytes(), "\u{2003}".as_bytes(), b"\x0b", b"\x0c", b"\r", b"-"]));
                } else {
                    t.extend(*g.pick(&[&b" "[..], b" ", b"\t", b"   ", b" \t"]));
                }
            }
            if odd {
                let x = gen_number(g);
                t.extend(x);
            } else {
                let v = if g.chance(1, 6) { g.draw(u32::MAX as u64) } else { g.draw(12) };
                t.extend(v.to_string().into_bytes());
            }
        }
        if g.chance(1, 8) {
            t.extend(*g.pick(&[&b" "[..], b"\t"]));
        }
        if odd && g.chance(1, 8) {
            t.extend(*g.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\n", b"\r", b"\n\n", b"# comment"]));
        }
        if crlf {
            t.push(b'\r');
        }
        if i + 1 < n || !g.chance(1, 4) {
            t.push(b'\n');
        }
    }
    t
}

fn graph_of(rows: &[Vec<u32>]) -> RG {
    RG::from_parts([], rows.iter().map(|r| (r[0], r[1])))
}

fn read_graph(r: io::Result<EditGraph>) -> Result<RG, String> {
    r.map(|G| readback(&G)).map_err(|e| e.to_string())
}

/// Loads the text as the type under test; the outcome as rows (sorted for graphs and sets).
fn outcome(kind: u64, text: Parsed<Vec<Vec<u32>>>) -> Parsed<String> {
    match text {
        Parsed::Bad => Parsed::Bad,
        Parsed::Unspecified => Parsed::Unspecified,
        Parsed::Good(rows) => Parsed::Good(match kind {
            0 => format!("{:?}", graph_of(&rows)),
            1 => format!("{:?}", rows.iter().map(|r| r[0]).collect::<Vec<_>>()),
            _ => format!("{:?}", rows.iter().map(|r| r[0]).collect::<BTreeSet<_>>()),
        }),
    }
}

enum How {
    Buf(Box<dyn BufRead>),
    Txt(String),
    Gz(String),
    File(String),
}

fn load(kind: u64, how: How) -> Result<String, String> {
    fn go<L: LoadFromFile>(how: How) -> io::Result<L> {
        match how {
            How::Buf(b) => L::from_buf(b),
            How::Txt(p) => L::from_txt(&p),
            How::Gz(p) => L::from_gzipped(&p),
            How::File(p) => L::from_file(&p),
        }
    }
    match kind {
        0 => read_graph(go::<EditGraph>(how)).map(|x| format!("{x:?}")),
        1 => go::<Vec<Vertex>>(how).map(|x| format!("{x:?}")).map_err(|e| e.to_string()),
        _ => go::<VertexSet>(how).map(|x| format!("{:?}", bset(&x))).map_err(|e| e.to_string()),
    }
}

fn judge(cx: &mut Cx, sig: &str, got: Result<Result<String, String>, String>, want: &Parsed<String>) {
    cx.subchecks += 1;
    match (got, want) {
        (Err(p), _) => cx.fail(&format!("{sig}/panic"), format!("panicked at {p}")),
        (_, Parsed::Unspecified) => {}
        (Ok(Ok(x)), Parsed::Bad) => cx.fail(&format!("{sig}/accepted"), format!("malformed input accepted as {}", x.chars().take(300).collect::<String>())),
        (Ok(Err(e)), Parsed::Good(_)) => cx.fail(&format!("{sig}/rejected"), format!("well-formed input rejected: {e}")),
        (Ok(Ok(x)), Parsed::Good(w)) => {
            if x != *w {
                cx.fail(&format!("{sig}/content"), format!("got {}, expected {}", x.chars().take(600).collect::<String>(), w.chars().take(600).collect::<String>()))
            }
        }
        (Ok(Err(_)), Parsed::Bad) => {}
    }
}

pub fn c10(g: &mut Gen, cx: &mut Cx) {
    let kind = g.weighted(&[3, 1, 1]) as u64;
    let k = if kind == 0 { 2 } else { 1 };
    match g.weighted(&[6, 3, 2, 3, 1]) {
        0 => {
            // text, well-formed or not
            let text = if g.chance(1, 12) { (0..g.range(0, 40)).map(|_| g.draw(255) as u8).collect() } else { gen_text(g, k) };
            cx.input(&("text", kind, String::from_utf8_lossy(&text)));
            let want = outcome(kind, reference(&text, k));
            cx.label(match want {
                Parsed::Good(_) => "well-formed text",
                Parsed::Bad => "malformed text",
                _ => "unspecified text",
            });
            cx.nontrivial_if(want == Parsed::Bad);
            let b = buf_of(g, text.clone());
            judge(cx, "from_buf", guarded(|| load(kind, How::Buf(b))), &want);
            let dir = CaseDir::new();
            let (p, q) = (dir.path("x.txt"), dir.path("x.txt.gz"));
            std::fs::write(&p, &text).unwrap();
            // a gzip file may consist of several members
            let zipped = if g.chance(1, 4) && text.len() >= 2 {
                let i = g.below(text.len());
                cx.label("multi-member gzip");
                [gz(&text[..i]), gz(&text[i..])].concat()
            } else {
                gz(&text)
            };
            std::fs::write(&q, zipped).unwrap();
            judge(cx, "from_txt", guarded(|| load(kind, How::Txt(p.clone()))), &want);
            judge(cx, "from_file-txt", guarded(|| load(kind, How::File(p.clone()))), &want);
            judge(cx, "from_gzipped", guarded(|| load(kind, How::Gz(q.clone()))), &want);
            judge(cx, "from_file-gz", guarded(|| load(kind, How::File(q.clone()))), &want);
        }
        1 => {
            // damaged gzip file: an error or the right content, never a panic or wrong content
            let mut text: Vec<u8> = vec![];
            let n = if g.chance(1, 10) { g.range(500, 3000) } else { g.range(0, 12) };
            for _ in 0..n {
                for j in 0..k {
                    if j > 0 {
                        text.push(b' ');
                    }
                    text.extend(g.draw(40).to_string().into_bytes());
                }
                text.push(b'\n');
            }
            let good = outcome(kind, reference(&text, k));
            let mut raw = gz(&text);
            let full = raw.len();
            let mut truncated = false;
            let what = match g.draw(3) {
                0 => {
                    let keep = g.below(raw.len());
                    raw.truncate(keep);
                    truncated = true;
                    "truncated"
                }
                1 => {
                    for _ in 0..g.range(1, 3) {
                        let i = g.below(raw.len());
                        raw[i] ^= 1 << g.draw(7);
                    }
                    "bit flips"
                }
                2 => {
                    let i = g.below(raw.len());
                    for j in i..raw.len().min(i + 8) {
                        raw[j] = g.draw(255) as u8;
                    }
                    "overwritten"
                }
                _ => {
                    raw = text.clone();
                    raw.insert(0, b'0' + g.draw(9) as u8);
                    "not gzip at all"
                }
            };
            cx.label(what);
            cx.input(&("gzip", kind, what, full, &raw));
            cx.nontrivial();
            let dir = CaseDir::new();
            let q = dir.path("x.gz");
            std::fs::write(&q, &raw).unwrap();
            for (sig, how) in [("damaged/from_gzipped", How::Gz(q.clone())), ("damaged/from_file", How::File(q.clone()))] {
                let got = guarded(|| load(kind, how));
                let want = if truncated || what == "not gzip at all" || !matches!(got, Ok(Ok(_))) { Parsed::Bad } else { good.clone() };
                judge(cx, sig, got, &want);
            }
        }
        2 => {
            // a reader that fails in the middle
            let text: Vec<u8> = (0..g.range(1, 60)).flat_map(|i| if k == 2 { format!("{i} {}\n", i + 1) } else { format!("{i}\n") }.into_bytes()).collect();
            let fail_at = g.below(text.len() + 1);
            let kinds = [io::ErrorKind::Other, io::ErrorKind::UnexpectedEof, io::ErrorKind::PermissionDenied, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData];
            let ek = *g.pick(&kinds);
            cx.input(&("failing reader", kind, text.len(), fail_at, ek));
            cx.label("failing reader");
            cx.nontrivial();
            let r = BufReader::with_capacity(1 + g.draw(100) as usize, Flaky { data: text, pos: 0, chunk: 1 + g.draw(30) as usize, fail_at, tick: 0, kind: ek });
            judge(cx, "failing-reader", guarded(|| load(kind, How::Buf(Box::new(r)))), &Parsed::Bad);
        }
        3 => {
            // failing sinks
            const CFG: Cfg = Cfg::new(12).big(300, 12).loops();
            let s = graph(g, &CFG);
            let xs: Vec<u32> = s.verts.clone();
            let G = s.edit();
            let set: VertexSet = xs.iter().copied().collect();
            let write = |w: Box<dyn Write>| -> io::Result<()> {
                match kind {
                    0 => G.write_buf(w),
                    1 => xs.write_buf(w),
                    _ => set.write_buf(w),
                }
            };
            let ok = Sink::new();
            if let Err(e) = write(Box::new(ok.clone())) {
                cx.fail("write/err", e.to_string());
                return;
            }
            let total = ok.bytes().len();
            cx.label("failing sink");
            let buffered = g.draw(2);
            let flush_only = g.chance(1, 5);
            if !flush_only && total == 0 {
                return;
            }
            let limit = if flush_only { usize::MAX } else { g.below(total) };
            let s2 = Sink { limit, fail_flush: flush_only, mode: g.draw(1) as u8, chunk: 1 + g.draw(30) as usize, ..Sink::new() };
            cx.input(&("failing sink", kind, &s, limit, flush_only, buffered));
            cx.nontrivial();
            let w: Box<dyn Write> = match buffered {
                0 => Box::new(s2.clone()),
                1 => Box::new(io::BufWriter::with_capacity(1 + g.draw(30) as usize, s2.clone())),
                _ => Box::new(io::BufWriter::new(s2.clone())),
            };
            match guarded(|| write(w)) {
                Err(p) => cx.fail("sink/panic", format!("panicked at {p}")),
                Ok(Ok(())) => cx.fail("sink/silent", format!("the sink failed after {limit} of {total} bytes (flush fails: {flush_only}) but Ok was returned")),
                Ok(Err(_)) => {}
            }
            // the device that is always full
            if total > 0 && std::fs::metadata("/dev/full").is_ok() {
                for gzip in [false, true] {
                    let r = guarded(|| match (kind, gzip) {
                        (0, false) => G.write_txt("/dev/full"),
                        (0, true) => G.write_gzipped("/dev/full"),
                        (1, false) => xs.write_txt("/dev/full"),
                        (1, true) => xs.write_gzipped("/dev/full"),
                        (_, false) => set.write_txt("/dev/full"),
                        (_, true) => set.write_gzipped("/dev/full"),
                    });
                    match r {
                        Err(p) => cx.fail("devfull/panic", format!("panicked at {p}")),
                        Ok(Ok(())) => cx.fail("devfull/silent", format!("writing to a full device returned Ok (gzip: {gzip})")),
                        Ok(Err(_)) => {}
                    }
                }
            }
        }
        _ => {
            // paths that cannot be opened
            let dir = CaseDir::new();
            let sub = dir.path("sub.txt");
            std::fs::create_dir(&sub).unwrap();
            let names = ["missing.txt", "missing.gz", "sub.txt", "no/such/dir/x.txt", "data.csv", "noext", "x.zip", ""];
            let name = *g.pick(&names);
            let p = if name.is_empty() { String::new() } else { dir.path(name) };
            if ["data.csv", "noext", "x.zip"].contains(&name) {
                std::fs::write(&p, if k == 2 { "0 1\n" } else { "0\n" }).unwrap();
            }
            cx.input(&("path", kind, name));
            cx.label("bad path");
            cx.nontrivial();
            judge(cx, "path/from_file", guarded(|| load(kind, How::File(p.clone()))), &Parsed::Bad);
            if ["missing.txt", "missing.gz", "sub.txt", "no/such/dir/x.txt", ""].contains(&name) {
                judge(cx, "path/from_txt", guarded(|| load(kind, How::Txt(p.clone()))), &Parsed::Bad);
                judge(cx, "path/from_gzipped", guarded(|| load(kind, How::Gz(p.clone()))), &Parsed::Bad);
            }
            if ["sub.txt", "no/such/dir/x.txt", ""].contains(&name) {
                let G = EditGraph::path(3);
                let r = guarded(|| (G.write_txt(&p).is_err(), G.write_gzipped(&p).is_err()));
                cx.eq("path/write", r, Ok((true, true)));
            }
        }
    }
}
