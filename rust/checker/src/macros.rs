//! Native macro machines against runs in a window of cells.
use std::collections::{BTreeSet, HashSet};

use bb::verif_bridge::macros::*;
use serde_json::json;

use crate::refm::Prog;
#[cfg(feature = "inner")]
use crate::refm::{fate, End};
use crate::runs::guarded;
use crate::space;
use crate::stats::Stats;
use crate::Opts;

type Params = (u64, u64);

/// The run on some cells until it leaves them; None when it never does, or
/// comes to where there is no instruction.
fn window(
    prog: &impl GetInstr,
    mut state: u64,
    mut tape: Vec<u64>,
    mut pos: usize,
) -> (u64, Option<(u64, bool, Vec<u64>)>) {
    let mut seen = HashSet::new();
    let mut steps = 0;
    loop {
        if !seen.insert((state, pos, tape.clone())) {
            return (steps, None);
        }
        let Some((color, shift, next)) = prog.get_instr(&(state, tape[pos])) else {
            return (steps, None);
        };
        steps += 1;
        tape[pos] = color;
        state = next;
        if shift {
            pos += 1;
            if pos == tape.len() {
                return (steps, Some((state, true, tape)));
            }
        } else {
            if pos == 0 {
                return (steps, Some((state, false, tape)));
            }
            pos -= 1;
        }
    }
}

fn digits(mut n: u64, base: u64, cells: usize) -> Vec<u64> {
    let mut out = vec![0; cells];
    for i in (0..cells).rev() {
        out[i] = n % base;
        n /= base;
    }
    out
}

fn number(digits: &[u64], base: u64) -> u64 {
    digits.iter().fold(0, |acc, d| acc * base + d)
}

/// The cells that a macro state and colour stand for: state, cells, head.
fn decode(back: bool, cells: usize, colors: u64, (ms, mc): (u64, u64)) -> (u64, Vec<u64>, usize) {
    if back {
        let all = colors.pow(cells as u32);
        let (rest, right) = (ms / 2, ms % 2 == 1);
        let mut span = digits(rest % all, colors, cells);
        if right {
            span.insert(0, mc);
            (rest / all, span, 0)
        } else {
            span.push(mc);
            (rest / all, span, cells)
        }
    } else {
        let pos = if ms % 2 == 1 { cells - 1 } else { 0 };
        (ms / 2, digits(mc, colors, cells), pos)
    }
}

fn encode(back: bool, cells: usize, colors: u64, out: (u64, bool, Vec<u64>)) -> (u64, bool, u64) {
    let (state, right, tape) = out;
    if back {
        let all = colors.pow(cells as u32);
        if right {
            (tape[0], false, 2 * (state * all + number(&tape[1..], colors)))
        } else {
            (tape[cells], true, 1 + 2 * (state * all + number(&tape[..cells], colors)))
        }
    } else {
        (number(&tape, colors), right, 2 * state + u64::from(!right))
    }
}

/// All instructions of the macro that a run of it may come to ask for.
fn compare(
    name: &str,
    inner: &impl GetInstr,
    outer: &impl GetInstr,
    back: bool,
    cells: usize,
    colors: u64,
    most: usize,
    stats: &Stats,
) {
    let mut states = BTreeSet::from([0]);
    let mut known = BTreeSet::from([0]);
    let mut done = BTreeSet::new();
    let (mut calls, mut steps) = (0, 0);
    loop {
        let todo: Vec<(u64, u64)> = states
            .iter()
            .flat_map(|&s| known.iter().map(move |&c| (s, c)))
            .filter(|slot| !done.contains(slot))
            .collect();
        if todo.is_empty() || done.len() > most {
            break;
        }
        for slot in todo {
            done.insert(slot);
            let (st, tape, pos) = decode(back, cells, colors, slot);
            let (n, out) = window(inner, st, tape, pos);
            steps += n;
            calls += 1;
            let want = out.map(|out| encode(back, cells, colors, out));
            let Some(got) = guarded(|| outer.get_instr(&slot)) else {
                let kind = if name.contains("back") { "back symbol panic" } else { "panic" };
                stats.violate(kind, &format!("{name} {slot:?}"), json!(null));
                continue;
            };
            stats.count(if want.is_none() { "never leaves" } else { "leaves" });
            if got != want {
                let kind = if name.contains("back") { "back symbol" } else { "instruction" };
                stats.violate(kind, &format!("{name} {slot:?} {got:?}"), json!({"want": want}));
            }
            if let Some((color, _, next)) = got {
                known.insert(color);
                states.insert(next);
            }
        }
    }
    stats.ran(calls, steps);
}

pub fn steps(sp: &str, o: &Opts, stats: &Stats) {
    let blocks = o.list("blocks", "1,2,3");
    let backs = o.list("backs", "1,2,3");
    let most = o.num("most", 400) as usize;
    let nest = o.num("nest", 0) > 0;
    space::each(sp, &|p: &Prog| {
        let text = p.show();
        stats.begin(&text);
        let comp = CompProg::from_str(&text);
        let (ns, nc) = (p.ns as u64, p.nc as u64);
        for &n in &blocks {
            let n = n as usize;
            let m = make_block_macro(&comp, (ns, nc), n);
            compare(&format!("{text} block {n}"), &comp, &m, false, n, nc, most, stats);
            if nest {
                let params = (2 * ns, nc.pow(n as u32));
                let m2 = make_block_macro(&m, params, 2);
                compare(&format!("{text} block {n} block 2"), &m, &m2, false, 2, params.1, most, stats);
                let m3 = make_backsymbol_macro(&m, params, 1);
                compare(&format!("{text} block {n} back 1"), &m, &m3, true, 1, params.1, most, stats);
            }
        }
        for &n in &backs {
            let n = n as usize;
            let m = make_backsymbol_macro(&comp, (ns, nc), n);
            compare(&format!("{text} back {n}"), &comp, &m, true, n, nc, most, stats);
            if nest {
                let params = (2 * ns * nc.pow(n as u32), nc);
                let m2 = make_block_macro(&m, params, 2);
                compare(&format!("{text} back {n} block 2"), &m, &m2, false, 2, nc, most, stats);
            }
        }
    });
}

/// Programs said to go on for ever, which must not halt.
#[cfg(feature = "inner")]
pub fn infrul(sp: &str, o: &Opts, stats: &Stats) {
    use bb::verif_bridge::inner::run_for_infrul;
    let blocks = o.list("blocks", "1,2,3");
    let backs = o.list("backs", "1,2");
    let lims = o.list("lims", "20,306");
    let horizon = o.num("horizon", 100_000);
    space::each(sp, &|p: &Prog| {
        let text = p.show();
        stats.begin(&text);
        let comp = CompProg::from_str(&text);
        let params: Params = (p.ns as u64, p.nc as u64);
        let end = fate(p, horizon);
        let ask = |kind: &str, what: String, got: Option<bool>| match got {
            None => stats.violate("panic", &text, json!({"machine": what})),
            Some(false) => stats.count("unknown"),
            Some(true) => {
                stats.count("infinite");
                if matches!(end.end, End::Halt(..)) {
                    stats.violate(&format!("halts/{kind}"), &format!("{text} {what}"), json!({"steps": end.steps}));
                } else if end.end == End::Spin {
                    stats.violate(&format!("spins out/{kind}"), &format!("{text} {what}"), json!({"steps": end.steps}));
                }
            }
        };
        for &lim in &lims {
            ask("plain", format!("plain {lim}"), guarded(|| run_for_infrul(&comp, lim)));
            for &n in &blocks {
                ask("block", format!("block {n} {lim}"), guarded(|| {
                    run_for_infrul(&make_block_macro(&comp, params, n as usize), lim)
                }));
            }
            for &n in &backs {
                ask("back", format!("back {n} {lim}"), guarded(|| {
                    run_for_infrul(&make_backsymbol_macro(&comp, params, n as usize), lim)
                }));
            }
        }
        stats.ran(lims.len() as u64 * (1 + blocks.len() + backs.len()) as u64, end.steps);
    });
}
