//! The compressed tape against plain cells, and the part of the tape that a
//! sequence of steps is said to depend on.
use std::collections::{HashSet, VecDeque};

use bb::verif_bridge::tapes::{
    BasicTape, ColorCount, EnumTape, GetSig, IndexTape, Signature,
};
use rayon::prelude::*;
use serde_json::json;

use crate::runs::guarded;
use crate::stats::Stats;
use crate::Opts;

/// Plain cells, nearest first on both sides, without trailing blanks.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Cells {
    left: Vec<u8>,
    scan: u8,
    right: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Act {
    shift: bool,
    color: u8,
    skip: bool,
}

fn trim(v: &mut Vec<u8>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

impl Cells {
    fn new() -> Self {
        Self { left: vec![], scan: 0, right: vec![] }
    }
    fn one(&mut self, shift: bool, color: u8) {
        let (ahead, behind) = if shift {
            (&mut self.right, &mut self.left)
        } else {
            (&mut self.left, &mut self.right)
        };
        behind.insert(0, color);
        self.scan = if ahead.is_empty() { 0 } else { ahead.remove(0) };
        trim(ahead);
        trim(behind);
    }
    /// A jump goes on while the cells ahead are as the first one was.
    fn step(&mut self, a: Act) -> u64 {
        let was = self.scan;
        let mut n = 1;
        loop {
            let more = {
                let ahead = if a.shift { &self.right } else { &self.left };
                a.skip && ahead.first() == Some(&was)
            };
            self.one(a.shift, a.color);
            if !more {
                return n;
            }
            n += 1;
        }
    }
    fn spans(v: &[u8]) -> Vec<(u8, u64)> {
        let mut out: Vec<(u8, u64)> = vec![];
        for &c in v {
            match out.last_mut() {
                Some(last) if last.0 == c => last.1 += 1,
                _ => out.push((c, 1)),
            }
        }
        out
    }
    fn text(&self) -> String {
        let show = |&(c, n): &(u8, u64)| {
            if n == 1 { format!("{c}") } else { format!("{c}^{n}") }
        };
        let mut out: Vec<String> =
            Self::spans(&self.left).iter().rev().map(show).collect();
        out.push(format!("[{}]", self.scan));
        out.extend(Self::spans(&self.right).iter().map(show));
        out.join(" ")
    }
}

fn sig_of(v: &[u8]) -> Vec<ColorCount> {
    Cells::spans(v)
        .iter()
        .map(|&(c, n)| {
            if n == 1 {
                ColorCount::Just(c.into())
            } else {
                ColorCount::Mult(c.into())
            }
        })
        .collect()
}

fn signature(c: &Cells) -> Signature {
    Signature {
        scan: c.scan.into(),
        lspan: sig_of(&c.left),
        rspan: sig_of(&c.right),
    }
}

fn colors(v: &[ColorCount]) -> Vec<u64> {
    v.iter()
        .map(|c| match c {
            ColorCount::Just(c) | ColorCount::Mult(c) => *c as u64,
        })
        .collect()
}

fn fits(sig: &Signature, other: &Signature) -> bool {
    colors(&sig.lspan).starts_with(&colors(&other.lspan))
        && colors(&sig.rspan).starts_with(&colors(&other.rspan))
        && sig.scan == other.scan
}

/// What the tape says of itself, against the cells.
fn agrees(t: &BasicTape, c: &Cells) -> Result<(), &'static str> {
    let (ls, rs) = (Cells::spans(&c.left), Cells::spans(&c.right));
    let counts = |v: &[(u8, u64)]| v.iter().map(|b| b.1).collect::<Vec<_>>();
    let check = |ok: bool, what: &'static str| if ok { Ok(()) } else { Err(what) };
    check(t.scan == u64::from(c.scan), "scan")?;
    check(t.to_string() == c.text(), "text")?;
    let mut whole: Vec<u64> =
        c.left.iter().rev().map(|&x| x.into()).collect();
    whole.push(c.scan.into());
    whole.extend(c.right.iter().map(|&x| u64::from(x)));
    check(t.unroll() == whole, "cells")?;
    check(t.counts() == (counts(&ls), counts(&rs)), "counts")?;
    check(t.span_lens() == (ls.len(), rs.len()), "lengths")?;
    check(t.blocks() == ls.len() + rs.len(), "blocks")?;
    check(
        t.marks() == whole.iter().filter(|&&x| x != 0).count() as u64,
        "marks",
    )?;
    check(t.blank() == whole.iter().all(|&x| x == 0), "blank")?;
    check(t.at_edge(true) == (c.scan == 0 && c.right.is_empty()), "edge")?;
    check(t.at_edge(false) == (c.scan == 0 && c.left.is_empty()), "edge")?;
    check(t.signature() == signature(c), "signature")?;
    for (side, v) in [(false, &ls), (true, &rs)] {
        for (i, b) in v.iter().enumerate() {
            check(t.get_count(&(side, i)) == b.1, "count")?;
        }
    }
    Ok(())
}

fn acts(n: u8) -> Vec<Act> {
    let mut out = vec![];
    for shift in [false, true] {
        for color in 0..n {
            for skip in [false, true] {
                out.push(Act { shift, color, skip });
            }
        }
    }
    out
}

/// Every tape reachable in `depth` moves, every move from each.
pub fn walk(o: &Opts, stats: &Stats) {
    for (n, depth, width) in [
        (2, o.num("two", 12), 14),
        (3, o.num("three", 8), 10),
        (4, o.num("four", 6), 8),
    ] {
        let acts = acts(n);
        let mut seen: HashSet<Cells> = HashSet::new();
        let mut queue: VecDeque<(BasicTape, Cells, u64)> = VecDeque::new();
        for (t, c) in [
            (BasicTape::init(0), Cells::new()),
            (
                BasicTape::init_stepped(),
                Cells { left: vec![1], scan: 0, right: vec![] },
            ),
        ] {
            if let Err(what) = agrees(&t, &c) {
                stats.violate(what, "initial tape", json!(t.to_string()));
            }
            seen.insert(c.clone());
            queue.push_back((t, c, 0));
        }
        while let Some((t, c, d)) = queue.pop_front() {
            let mut moves = 0;
            for &a in &acts {
                // a jump into the blank has no end: the machine looks first
                if a.skip && t.at_edge(a.shift) {
                    continue;
                }
                let mut t2 = t.clone();
                let mut c2 = c.clone();
                let n = c2.step(a);
                moves += n;
                let key = format!("{} {a:?}", c.text());
                let Some((got, t2)) = guarded(|| {
                    let got =
                        t2.step(a.shift, u64::from(a.color), a.skip);
                    (got, t2)
                }) else {
                    stats.violate("move panics", &key, json!(null));
                    continue;
                };
                if got != n {
                    stats.violate("steps", &key, json!([got, n]));
                }
                if let Err(what) = agrees(&t2, &c2) {
                    stats.violate(
                        what,
                        &key,
                        json!([t2.to_string(), c2.text()]),
                    );
                    continue;
                }
                let (s1, s2) = (signature(&c), signature(&c2));
                if t2.sig_compatible(&s1) != fits(&s2, &s1)
                    || t.sig_compatible(&s2) != fits(&s1, &s2)
                {
                    stats.violate("compatible", &key, json!(c2.text()));
                }
                if d < depth
                    && c2.left.len() + c2.right.len() <= width
                    && seen.insert(c2.clone())
                {
                    queue.push_back((t2, c2, d + 1));
                }
            }
            // the moves were made on copies
            if let Err(what) = agrees(&t, &c) {
                stats.violate("copy", &c.text(), json!(what));
            }
            // counts can be set one by one
            for (side, v) in [(false, &c.left), (true, &c.right)] {
                for (i, &(color, _)) in Cells::spans(v).iter().enumerate() {
                    let mut t2 = t.clone();
                    t2.set_count(&(side, i), 5);
                    let mut c2 = c.clone();
                    let w = if side { &mut c2.right } else { &mut c2.left };
                    *w = Cells::spans(v)
                        .iter()
                        .enumerate()
                        .flat_map(|(j, b)| {
                            let n = if j == i { 5 } else { b.1 };
                            std::iter::repeat_n(b.0, n as usize)
                        })
                        .collect();
                    let _ = color;
                    if let Err(what) = agrees(&t2, &c2) {
                        stats.violate("set", &c2.text(), json!(what));
                    }
                }
            }
            stats.ran(acts.len() as u64, moves);
        }
        stats.count("alphabets");
    }
}

fn sides(n: u8, blocks: usize, most: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<(u8, usize)>> = vec![vec![]];
    let mut all: Vec<Vec<(u8, usize)>> = vec![vec![]];
    for _ in 0..blocks {
        let mut next = vec![];
        for s in &out {
            for c in 0..n {
                if s.last().is_some_and(|l| l.0 == c) {
                    continue;
                }
                for k in 1..=most {
                    let mut s = s.clone();
                    s.push((c, k));
                    next.push(s);
                }
            }
        }
        all.extend(next.iter().filter(|s| s.last().unwrap().0 != 0).cloned());
        out = next;
    }
    all.iter()
        .map(|s| {
            s.iter()
                .flat_map(|&(c, k)| std::iter::repeat_n(c, k))
                .collect()
        })
        .collect()
}

/// The same cells as a compressed tape, by single moves only.
fn build(c: &Cells) -> BasicTape {
    let mut t = BasicTape::init(0);
    let n = c.left.len();
    for _ in 0..n {
        t.step(false, 0, false);
    }
    let mut row: Vec<u8> = c.left.iter().rev().copied().collect();
    row.push(c.scan);
    row.extend(&c.right);
    for &x in &row {
        t.step(true, x.into(), false);
    }
    for &x in row[n..].iter().rev() {
        let _ = x;
        let scan = t.scan;
        t.step(false, scan, false);
    }
    t
}

/// Blocks that two sides have in common, nearest first.
fn common(a: &[u8], b: &[u8]) -> usize {
    if a == b {
        return usize::MAX;
    }
    Cells::spans(a)
        .iter()
        .zip(Cells::spans(b).iter())
        .take_while(|(x, y)| x == y)
        .count()
}

/// One tape: for each sequence of moves (in order of enumeration) what was
/// seen, and what it was said to depend on.
struct Walk {
    cells: Cells,
    seen: Vec<(u8, u64)>,
    said: Vec<(usize, usize, bool, bool)>,
}

fn explore(cells: &Cells, acts: &[Act], depth: usize, stats: &Stats) -> Walk {
    let base = build(cells);
    let mut out = Walk { cells: cells.clone(), seen: vec![], said: vec![] };
    if let Err(what) = agrees(&base, cells) {
        stats.violate("built", &cells.text(), json!(what));
        return out;
    }
    let mut path: Vec<usize> = vec![];
    let mut steps = 0;
    loop {
        // the node `path`, from the start each time: an enumerated tape
        // cannot be copied
        if !path.is_empty() {
            let mut t = EnumTape::from(&base);
            let mut plain = cells.clone();
            let (mut got, mut want) = (0, 0);
            for &i in &path {
                let a = acts[i];
                got = t.step(a.shift, a.color.into(), a.skip) as u64;
                want = plain.step(a);
                steps += 1;
            }
            let (lo, ro) = t.offsets();
            let (le, re) = t.edges();
            if got != want
                || t.scan() != u64::from(plain.scan)
                || t.signature() != signature(&plain)
            {
                stats.violate(
                    "enumerated tape",
                    &cells.text(),
                    json!(path.iter().map(|&i| format!("{:?}", acts[i])).collect::<Vec<_>>()),
                );
            }
            out.seen.push((plain.scan, want));
            out.said.push((lo, ro, le, re));
        }
        if path.len() < depth {
            path.push(0);
            continue;
        }
        loop {
            match path.pop() {
                None => {
                    stats.ran(out.seen.len() as u64, steps);
                    return out;
                }
                Some(i) if i + 1 < acts.len() => {
                    path.push(i + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}

pub fn offsets(o: &Opts, stats: &Stats) {
    for (n, depth, blocks, most) in [
        (2, o.num("two", 5) as usize, 3, 2),
        (3, o.num("three", 3) as usize, 2, 2),
    ] {
        let acts = acts(n);
        let sides = sides(n, blocks, most);
        for scan in 0..n {
            let walks: Vec<Walk> = sides
                .par_iter()
                .flat_map_iter(|l| sides.iter().map(move |r| (l, r)))
                .map(|(l, r)| {
                    let c =
                        Cells { left: l.clone(), scan, right: r.clone() };
                    explore(&c, &acts, depth, stats)
                })
                .collect();
            let m = sides.len();
            (0..walks.len()).into_par_iter().for_each(|i| {
                let a = &walks[i];
                let mut compared = 0u64;
                let others = (0..m)
                    .map(|r| i / m * m + r)
                    .chain((0..m).map(|l| l * m + i % m))
                    .filter(|&j| j != i);
                for j in others {
                    let b = &walks[j];
                    let lc = common(&a.cells.left, &b.cells.left);
                    let rc = common(&a.cells.right, &b.cells.right);
                    for (k, &(lo, ro, le, re)) in a.said.iter().enumerate() {
                        let covered = lo <= lc
                            && ro <= rc
                            && (!le || lc == usize::MAX)
                            && (!re || rc == usize::MAX);
                        if !covered {
                            continue;
                        }
                        compared += 1;
                        if a.seen[k] != b.seen[k] {
                            stats.violate(
                                "depends on more",
                                &a.cells.text(),
                                json!([b.cells.text(), k, lo, ro, le, re]),
                            );
                            break;
                        }
                    }
                }
                stats.ran(0, compared);
            });
            stats.count("scanned colors");
        }
    }
}
