//! `list`: the programs of a space that a plain run does not settle.
//! `trace`: runs recorded elsewhere (one JSON object per line on stdin) are
//! replayed on the plain machine: every recorded configuration has to be
//! reached, in order, and at the recorded step when there is one.
use std::io::BufRead;
use std::sync::Mutex;

use rayon::prelude::*;
use serde_json::{json, Value};

use crate::refm::{Ev, Prog, Sim};
use crate::space;
use crate::stats::Stats;
use crate::Opts;

/// Exact or translated recurrence within `lim` steps: compares each record
/// configuration with the previous ones of the same state.
fn recurs(p: &Prog, lim: u64) -> bool {
    // (state, head, tape from the leftmost cell, origin) at records
    for right in [true, false] {
        let mut s = Sim::new();
        let mut far = 0isize;
        let mut recs: Vec<(u8, isize, Vec<u8>, isize, usize)> = vec![];
        // trail of head positions since the start
        let mut trail: Vec<isize> = vec![0];
        while s.steps < lim {
            if s.step(p) != Ev::Ran {
                return true;
            }
            let h = s.head();
            trail.push(h);
            let new = if right { h > far } else { h < far };
            if !new {
                continue;
            }
            far = h;
            for (st, h0, cells, org, t0) in recs.iter().rev().take(24) {
                if *st != s.state {
                    continue;
                }
                // the part of the tape looked at in between
                let seen = trail[*t0..].iter();
                let reach = if right {
                    *seen.min().unwrap()
                } else {
                    *seen.max().unwrap()
                };
                let d = h - h0;
                let old = |x: isize| -> u8 {
                    let i = x + org;
                    if i < 0 || i as usize >= cells.len() { 0 } else { cells[i as usize] }
                };
                let now = |x: isize| -> u8 {
                    let i = x + s.origin as isize;
                    if i < 0 || i as usize >= s.cells.len() { 0 } else { s.cells[i as usize] }
                };
                let (a, b) = if right { (reach, *h0) } else { (*h0, reach) };
                if (a..=b).all(|x| old(x) == now(x + d)) {
                    return true;
                }
            }
            recs.push((s.state, h, s.cells.clone(), s.origin as isize, trail.len() - 1));
        }
    }
    // in place
    let mut slow = Sim::new();
    let mut fast = Sim::new();
    while fast.steps < lim {
        for _ in 0..2 {
            if fast.step(p) != Ev::Ran {
                return true;
            }
        }
        slow.step(p);
        if fast.state == slow.state && fast.head() == slow.head()
            && fast.marks() == slow.marks() && fast.key() == slow.key()
        {
            return true;
        }
    }
    false
}

pub fn list(sp: &str, o: &Opts) {
    let lim = o.num("lim", 400);
    let maxdef = o.num("maxdef", 99) as usize;
    let out = Mutex::new(vec![]);
    space::each(sp, &|p| {
        if p.defined() <= maxdef && !recurs(p, lim) {
            out.lock().unwrap().push(p.show());
        }
    });
    let mut all = out.into_inner().unwrap();
    all.sort();
    all.dedup();
    for p in all {
        println!("{p}");
    }
}

pub fn all(sp: &str) {
    let out = Mutex::new(vec![]);
    space::each(sp, &|p| out.lock().unwrap().push(p.show()));
    let mut all = out.into_inner().unwrap();
    all.sort();
    all.dedup();
    for p in all {
        println!("{p}");
    }
}

fn expand(spans: &Value, out: &mut Vec<u8>, max: u64) -> bool {
    for b in spans.as_array().unwrap() {
        let (c, n) = (b[0].as_u64().unwrap(), b[1].as_u64());
        let Some(n) = n else { return false };
        if n > max || out.len() as u64 + n > 4 * max {
            return false;
        }
        out.extend(std::iter::repeat_n(c as u8, n as usize));
    }
    true
}

/// {"prog": .., "configs": [[step|null, state, left, scan, right], ..],
///  "end": {"kind": .., "step": n|null, "slot": [s, c], "marks": n|null},
///  "blanks": [[state, step|-1], ..]}
pub fn trace(o: &Opts, stats: &Stats) {
    let horizon = o.num("horizon", 2_000_000);
    let inf = o.num("inf", 20_000);
    let max = o.num("maxcells", 400);
    let lines: Vec<String> =
        std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    lines.par_iter().for_each(|line| {
        let v: Value = serde_json::from_str(line).unwrap();
        let text = v["prog"].as_str().unwrap();
        stats.begin(text);
        let n = one(text, &v, horizon, inf, max, stats);
        stats.ran(1, n);
    });
}

fn one(text: &str, v: &Value, horizon: u64, inf: u64, max: u64, stats: &Stats) -> u64 {
    let p = Prog::parse(text);
    let tag = v["tag"].as_str().unwrap_or("");
    let key = if tag.is_empty() { text.to_owned() } else { format!("{text} | {tag}") };
    let mut s = Sim::new();
    let mut blanks: Vec<(u64, u64)> = vec![];
    let mut work = 0u64;
    let mut leapt = false;
    let mut whole = true;
    // a machine above this one may go on where this one is said to spin
    let through = v["through"].as_bool().unwrap_or(false);
    for (i, c) in v["configs"].as_array().unwrap().iter().enumerate() {
        let mut cells = vec![];
        if !expand(&c[2], &mut cells, max) {
            stats.count("too-big");
            whole = false;
            break;
        }
        let head = cells.len() as isize;
        let scan = c[3].as_u64().unwrap() as u8;
        cells.push(scan);
        if !expand(&c[4], &mut cells, max) {
            stats.count("too-big");
            whole = false;
            break;
        }
        let marks = cells.iter().filter(|&&x| x != 0).count() as u64;
        let want = match cells.iter().position(|&x| x != 0) {
            None => (vec![], 0),
            Some(a) => {
                let b = cells.iter().rposition(|&x| x != 0).unwrap();
                (cells[a..=b].to_vec(), head - a as isize)
            }
        };
        let state = c[1].as_u64().unwrap() as u8;
        let step = c[0].as_u64();
        leapt |= step.is_none();
        let start = s.steps;
        loop {
            let hit = s.state == state && s.scan() == scan && s.marks() == marks
                && step.is_none_or(|n| n == s.steps)
                && {
                    let (_, body, at) = s.key();
                    body == want.0 && at == want.1
                };
            if hit {
                stats.count(if step.is_none() { "synced-after-rule" } else { "synced" });
                break;
            }
            let late = step.is_some_and(|n| s.steps >= n);
            let tail = |now: u64| json!({"config": i, "want": c, "from_step": start, "now": now});
            if late {
                stats.violate("different", &key, tail(s.steps));
                return s.steps;
            }
            if s.steps - start > horizon {
                stats.violate("unreached", &key, tail(s.steps));
                return s.steps;
            }
            let ev = s.step(&p);
            if ev == Ev::Spin && through {
                s.force(p.get(s.state as usize, s.scan() as usize).unwrap());
            } else if ev != Ev::Ran {
                stats.violate("unreached", &key, tail(s.steps));
                return s.steps;
            }
            if s.last_print == 0 && s.blank()
                && !blanks.iter().any(|b| b.0 == u64::from(s.state))
            {
                blanks.push((u64::from(s.state), s.steps));
            }
        }
        work = s.steps;
    }
    // the ending
    let e = &v["end"];
    let kind = e["kind"].as_str().unwrap_or("xlimit");
    let step = e["step"].as_u64();
    let mut ended = None;
    if whole || kind == "infrul" || kind == "blankloop" {
        let mut left = if kind == "infrul" { inf } else { horizon };
        while left > 0 {
            if step.is_some_and(|n| s.steps >= n) && !leapt && kind != "infrul" {
                break;
            }
            let ev = s.step(&p);
            if ev == Ev::Spin && through {
                break;
            }
            if ev != Ev::Ran {
                ended = Some(ev);
                break;
            }
            if s.last_print == 0 && s.blank()
                && !blanks.iter().any(|b| b.0 == u64::from(s.state))
            {
                blanks.push((u64::from(s.state), s.steps));
            }
            left -= 1;
            if kind == "xlimit" {
                break;
            }
        }
        work = s.steps;
                if matches!(kind, "undfnd" | "spnout") && ended.is_none() {
            ended = match s.clone().step(&p) {
                Ev::Ran => None,
                other => Some(other),
            };
        }
        let now = || json!({"end": e, "plain_steps": s.steps, "plain_marks": s.marks(),
            "plain_slot": s.slot(), "plain_ended": ended.is_some()});
        match kind {
            "undfnd" | "spnout" => {
                let right = match (&ended, kind) {
                    (Some(Ev::Undefined), "undfnd") => {
                        e["slot"][0].as_u64() == Some(s.state.into())
                            && e["slot"][1].as_u64() == Some(s.scan().into())
                    }
                    (Some(Ev::Spin), "spnout") => true,
                    _ => false,
                } && step.is_none_or(|n| n == s.steps)
                    && e["marks"].as_u64().is_none_or(|n| n == s.marks());
                if ended.is_none() && leapt && left == 0 {
                    stats.count("end-beyond-horizon");
                } else if !right {
                    stats.violate(&format!("end-{kind}"), &key, now());
                }
                stats.count(kind);
            }
            "infrul" => {
                if ended.is_some() {
                    stats.violate("end-infrul", &key, now());
                }
                stats.count(kind);
            }
            other => stats.count(other),
        }
    }
    // reported blank events
    if let Some(list) = v["blanks"].as_array() {
        for b in list {
            let (st, at) = (b[0].as_u64().unwrap(), b[1].as_u64());
            let real = blanks.iter().find(|x| x.0 == st).map(|x| x.1);
            let ok = match (real, at) {
                (Some(r), Some(n)) => r == n,
                (Some(_), None) => true,
                (None, _) => !whole || leapt,
            };
            if !ok {
                stats.violate("blanks", &key, json!({"state": st, "reported": b[1], "plain": real}));
            }
        }
    }
    work
}
