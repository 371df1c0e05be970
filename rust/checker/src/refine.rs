//! Stepwise refinement: every configuration an accelerated run passes through
//! is one the plain machine passes through, in the same order.
use bb::verif_bridge::parts::{
    apply_rule, BasicTape, CompProg, GetInstr, Op, Parse, Prover, ProverResult,
};
use serde_json::json;

use crate::refm::{Ev, Prog, Sim};
use crate::runs::guarded;
use crate::space;
use crate::stats::Stats;
use crate::Opts;

fn same(s: &Sim, state: u64, tape: &BasicTape, marks: u64) -> bool {
    if u64::from(s.state) != state
        || u64::from(s.scan()) != tape.scan
        || s.marks() != marks
    {
        return false;
    }
    // compare the non-blank parts, with the head's place in them
    let text = tape.to_string();
    let mut cells: Vec<u8> = vec![];
    let mut head = 0isize;
    for tok in text.split(' ') {
        if let Some(inner) = tok.strip_prefix('[') {
            head = cells.len() as isize;
            cells.push(inner.trim_end_matches(']').parse().unwrap());
        } else {
            let (c, n) = tok.split_once('^').unwrap_or((tok, "1"));
            let n: usize = n.parse().unwrap();
            if n > 100_000_000 {
                return false;
            }
            cells.extend(std::iter::repeat_n(c.parse::<u8>().unwrap(), n));
        }
    }
    let (_, body, at) = s.key();
    match cells.iter().position(|&c| c != 0) {
        None => body.is_empty(),
        Some(a) => {
            let b = cells.iter().rposition(|&c| c != 0).unwrap();
            body == cells[a..=b] && at == head - a as isize
        }
    }
}

pub fn refine(sp: &str, o: &Opts, stats: &Stats) {
    let lim = o.num("lim", 300);
    let horizon = o.num("horizon", 200_000);
    let maxmarks = o.num("maxmarks", 3000);
    space::each(sp, &|p| one(p, lim, horizon, maxmarks, stats));
}

pub fn one(p: &Prog, lim: u64, horizon: u64, maxmarks: u64, stats: &Stats) {
    let text = p.show();
    stats.begin(&text);
    let comp = CompProg::from_str(&text);
    let mut tape = BasicTape::init(0);
    let mut prover = Prover::new(&comp);
    let mut state = 0u64;
    let mut s = Sim::new();
    let mut rules = 0u64;
    let mut synced = 0u64;
    for cycle in 0..lim {
        let got = guarded(|| prover.try_rule(cycle as i32, state, &tape));
        let Some(got) = got else {
            stats.violate("panic", &text, json!({"cycle": cycle}));
            stats.ran(cycle, s.steps);
            return;
        };
        let mut applied = None;
        match got {
            None => {}
            Some(ProverResult::ConfigLimit | ProverResult::MultRule) => break,
            Some(ProverResult::InfiniteRule) => {
                stats.count("infinite");
                break;
            }
            Some(ProverResult::Got(rule)) => {
                let neg = rule
                    .values()
                    .filter(|op| matches!(op, Op::Plus(d) if *d < 0))
                    .count();
                if apply_rule(&rule, &mut tape).is_some() {
                    applied = Some(format!("{rule:?}"));
                    rules += 1;
                    stats.count(&format!("applied:{neg}-decreasing"));
                }
            }
        }
        if applied.is_none() {
            let slot = (state, tape.scan);
            let Some((color, shift, next)) = comp.get_instr(&slot) else {
                break;
            };
            let same = state == next;
            if same && tape.at_edge(shift) {
                break;
            }
            tape.step(shift, color, same);
            state = next;
        }
        let marks = tape.marks();
        if rules == 0 && applied.is_none() && cycle % 8 != 7 {
            continue;
        }
        if marks > maxmarks {
            stats.count("too-big");
            break;
        }
        // run the plain machine until it shows the same configuration
        let start = s.steps;
        loop {
            if same(&s, state, &tape, marks) {
                synced += 1;
                break;
            }
            if s.steps - start > horizon {
                if applied.is_some() || rules > 0 {
                    stats.violate("unreached", &text, json!({"cycle": cycle,
                        "rule": applied, "tape": tape.to_string(),
                        "state": state, "from_step": start}));
                } else {
                    stats.violate("unreached-plain", &text, json!({"cycle": cycle}));
                }
                stats.ran(cycle, s.steps);
                return;
            }
            if s.step(p) != Ev::Ran {
                stats.violate("unreached", &text, json!({"cycle": cycle,
                    "rule": applied, "tape": tape.to_string(), "state": state,
                    "from_step": start, "plain_ends": s.steps}));
                stats.ran(cycle, s.steps);
                return;
            }
        }
    }
    if rules > 0 {
        stats.count("programs-with-rules");
        stats.sample("with-rules", || json!({"prog": text, "rules": rules, "synced": synced}));
    }
    stats.ran(lim, s.steps);
}
