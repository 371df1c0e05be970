//! Program spaces, enumerated completely.
//!   raw:SxC       every partial program: each slot undefined or any instruction
//!   full:SxC      every total program
//!   rb:SxC        raw with A0 = 1RB
//!   rbh:SxC:K     rb with at most K undefined slots
//!   tnf:SxC:LIM   every program a blank-tape run can distinguish within LIM
//!                 steps (leaves and inner nodes), up to renaming and mirror
//!   list:FILE     the programs of a file
//!   as:S:C/...    the programs of the rest with state n called S[n] and color n
//!                 called C[n]; what is left out stays undefined
//!   At:S:C/...    the same; what is left out goes back to state A
use crate::refm::{Ev, Ins, Prog, Sim};
use rayon::prelude::*;

pub fn params(s: &str) -> (usize, usize) {
    let (a, b) = s.split_once('x').unwrap();
    (a.parse().unwrap(), b.parse().unwrap())
}

fn decode(mut n: u64, p: &mut Prog, from: usize, alpha: &[Ins], undef: bool) {
    for slot in from..p.t.len() {
        let base = alpha.len() as u64 + u64::from(undef);
        let d = (n % base) as usize;
        n /= base;
        p.t[slot] = if undef {
            if d == 0 { None } else { Some(alpha[d - 1]) }
        } else {
            Some(alpha[d])
        };
    }
}

pub fn size(space: &str) -> Option<u64> {
    let f: Vec<&str> = space.split(':').collect();
    let (ns, nc) = params(f[1]);
    let a = (2 * ns * nc) as u64;
    let k = (ns * nc) as u32;
    match f[0] {
        "raw" => Some((a + 1).pow(k)),
        "full" => Some(a.pow(k)),
        "rb" => Some((a + 1).pow(k - 1)),
        _ => None,
    }
}

/// Calls `f` on every program of the space; in parallel, order unspecified.
pub fn each(space: &str, f: &(impl Fn(&Prog) + Sync)) {
    let named = space.starts_with("as:") || space.starts_with("At:");
    if !named {
        each_plain(space, f);
        return;
    }
    let (names, inner) = space.split_once('/').unwrap();
    let fs: Vec<&str> = names.split(':').collect();
    let read = |s: &str| -> Vec<u8> {
        s.split(',').map(|n| n.parse().unwrap()).collect()
    };
    let (ss, cs) = (read(fs[1]), read(fs[2]));
    let top = |v: &[u8]| 1 + *v.iter().max().unwrap() as usize;
    let mut frame = Prog::empty(top(&ss), top(&cs));
    if fs[0] == "At" {
        for s in 0..frame.ns {
            for c in 0..frame.nc {
                if !ss.contains(&(s as u8)) || !cs.contains(&(c as u8)) {
                    let ins = Ins { print: c as u8, right: s % 2 == 0, next: 0 };
                    frame.set(s, c, Some(ins));
                }
            }
        }
    }
    each_plain(inner, &|p| {
        let mut q = frame.clone();
        for s in 0..p.ns {
            for c in 0..p.nc {
                let ins = p.get(s, c).map(|i| Ins {
                    print: cs[i.print as usize],
                    right: i.right,
                    next: ss[i.next as usize],
                });
                q.set(ss[s] as usize, cs[c] as usize, ins);
            }
        }
        f(&q);
    });
}

fn each_plain(space: &str, f: &(impl Fn(&Prog) + Sync)) {
    if let Some(file) = space.strip_prefix("list:") {
        let text = std::fs::read_to_string(file).unwrap();
        let lines: Vec<&str> = text.lines().collect();
        lines.par_iter().for_each(|line| f(&Prog::parse(line)));
        return;
    }
    let fs: Vec<&str> = space.split(':').collect();
    let (ns, nc) = params(fs[1]);
    let alpha = Prog::alphabet(ns, nc);
    match fs[0] {
        "raw" | "full" | "rb" => {
            let undef = fs[0] != "full";
            let from = usize::from(fs[0] == "rb");
            let total = size(space).unwrap();
            let chunk = 4096;
            (0..total.div_ceil(chunk)).into_par_iter().for_each(|c| {
                let mut p = Prog::empty(ns, nc);
                if from == 1 {
                    p.t[0] = Some(Ins { print: 1, right: true, next: 1 });
                }
                for n in c * chunk..((c + 1) * chunk).min(total) {
                    decode(n, &mut p, from, &alpha, undef);
                    f(&p);
                }
            });
        }
        "rbh" => {
            let holes: usize = fs[2].parse().unwrap();
            // first choose the instruction of B0 (or a hole) in parallel
            let heads: Vec<(Option<Ins>, Option<Ins>)> = {
                let opts: Vec<Option<Ins>> = std::iter::once(None)
                    .chain(alpha.iter().copied().map(Some))
                    .collect();
                opts.iter()
                    .flat_map(|&a| opts.iter().map(move |&b| (a, b)))
                    .collect()
            };
            heads.par_iter().for_each(|&(a, b)| {
                let used = usize::from(a.is_none()) + usize::from(b.is_none());
                if used > holes {
                    return;
                }
                let mut p = Prog::empty(ns, nc);
                p.t[0] = Some(Ins { print: 1, right: true, next: 1 });
                p.t[1] = a;
                p.t[2] = b;
                fill(&mut p, 3, holes - used, &alpha, f);
            });
        }
        "tnf" => {
            let lim: u64 = fs[2].parse().unwrap();
            let right: Vec<Ins> = first(ns, nc);
            let mut todo = vec![];
            f(&Prog::empty(ns, nc));
            for &i in &right {
                let mut p = Prog::empty(ns, nc);
                p.t[0] = Some(i);
                todo.push(p);
            }
            // widen sequentially, then recurse in parallel
            for _ in 0..2 {
                let mut next = vec![];
                for p in todo {
                    f(&p);
                    next.extend(children(&p, lim));
                }
                todo = next;
            }
            todo.par_iter().for_each(|p| descend(&mut p.clone(), lim, f));
        }
        other => panic!("unknown space {other}"),
    }
}

fn fill(
    p: &mut Prog,
    at: usize,
    holes: usize,
    alpha: &[Ins],
    f: &impl Fn(&Prog),
) {
    if at == p.t.len() {
        f(p);
        return;
    }
    if holes > 0 {
        p.t[at] = None;
        fill(p, at + 1, holes - 1, alpha, f);
    }
    for &i in alpha {
        p.t[at] = Some(i);
        fill(p, at + 1, holes, alpha, f);
    }
    p.t[at] = None;
}

fn first(ns: usize, nc: usize) -> Vec<Ins> {
    // A0 moves right; new names are introduced in order
    let mut out = vec![];
    for print in 0..nc.min(2) {
        for next in 0..ns.min(2) {
            out.push(Ins { print: print as u8, right: true, next: next as u8 });
        }
    }
    out
}

fn undefined_at(p: &Prog, lim: u64) -> Option<(u8, u8)> {
    let mut s = Sim::new();
    while s.steps < lim {
        match s.step(p) {
            Ev::Undefined => return Some(s.slot()),
            Ev::Spin => return None,
            Ev::Ran => {}
        }
    }
    None
}

pub fn children(p: &Prog, lim: u64) -> Vec<Prog> {
    let Some((st, co)) = undefined_at(p, lim) else {
        return vec![];
    };
    let (mut ms, mut mc) = (st as usize, co as usize);
    for i in p.t.iter().flatten() {
        ms = ms.max(i.next as usize);
        mc = mc.max(i.print as usize);
    }
    let mut out = vec![];
    for print in 0..p.nc.min(mc + 2) {
        for right in [false, true] {
            for next in 0..p.ns.min(ms + 2) {
                let mut q = p.clone();
                q.set(
                    st as usize,
                    co as usize,
                    Some(Ins { print: print as u8, right, next: next as u8 }),
                );
                out.push(q);
            }
        }
    }
    out
}

fn descend(p: &mut Prog, lim: u64, f: &(impl Fn(&Prog) + Sync)) {
    f(p);
    let kids = children(p, lim);
    if kids.len() > 6 && p.defined() < 5 {
        kids.into_par_iter().for_each(|mut q| descend(&mut q, lim, f));
    } else {
        for mut q in kids {
            descend(&mut q, lim, f);
        }
    }
}
