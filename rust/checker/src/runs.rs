use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use bb::verif_bridge::api::{self, MachineResult};
use serde_json::json;

use crate::refm::{fate, recurs, End, Ev, Later, Prog, Sim};
use crate::space;
use crate::stats::Stats;
use crate::Opts;

pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn verdict(r: &MachineResult) -> String {
    format!("{:?}", r.result())
}

fn full(r: &MachineResult) -> serde_json::Value {
    json!({"result": verdict(r), "steps": r.steps(), "cycles": r.cycles(),
        "marks": r.marks(), "rulapp": r.rulapp(), "blanks": r.blanks(),
        "undfnd": r.undfnd()})
}

/// What run_quick_machine must report after `lim` cycles, computed cell by
/// cell.  One cycle: one instruction, repeated while it keeps its state and
/// reads the same colour within the block it started on.
struct Want {
    result: &'static str,
    steps: u64,
    cycles: Option<u64>,
    marks: u64,
    blanks: Vec<(u64, u64)>,
    undfnd: Option<(u64, (u64, u64))>,
}

fn expect_quick(p: &Prog, lim: u64) -> (Want, u64) {
    let mut s = Sim::new();
    let mut blanks: Vec<(u64, u64)> = vec![];
    let mut w = Want {
        result: "xlimit",
        steps: 0,
        cycles: None,
        marks: 0,
        blanks: vec![],
        undfnd: None,
    };
    'run: for cycle in 0..lim {
        let (st, sc) = s.slot();
        let Some(i) = p.get(st as usize, sc as usize) else {
            w.result = "undfnd";
            w.cycles = Some(cycle);
            w.undfnd = Some((s.steps, (st.into(), sc.into())));
            break;
        };
        let same = i.next == st;
        if same && s.edge(i.right) {
            w.result = "spnout";
            w.cycles = Some(cycle);
            break;
        }
        s.force(i);
        if same {
            // stay inside the block: a run of equal cells; beyond the last
            // mark the tape is blank and belongs to no block
            while s.scan() == sc && !s.edge(i.right) {
                s.force(i);
            }
        }
        if i.print == 0 && s.blank() {
            let st = u64::from(s.state);
            if blanks.iter().any(|b| b.0 == st) {
                w.result = "infrul";
                break 'run;
            }
            blanks.push((st, s.steps));
            if st == 0 {
                w.result = "infrul";
                break 'run;
            }
        }
    }
    blanks.sort_unstable();
    w.blanks = blanks;
    w.steps = s.steps;
    w.marks = s.marks();
    (w, s.steps)
}

pub fn quick(sp: &str, o: &Opts, stats: &Stats) {
    let lims = o.list("lims", "0,1,2,3,7,40");
    space::each(sp, &|p| {
        let text = p.show();
        stats.begin(&text);
        let mut steps = 0;
        for &lim in &lims {
            let (w, n) = expect_quick(p, lim);
            steps += n;
            let Some(r) = guarded(|| api::run_quick_machine(&text, lim))
            else {
                stats.violate("panic", &text, json!({"lim": lim}));
                continue;
            };
            let blanks: Vec<(u64, u64)> = r.blanks().into_iter().collect();
            let ok = verdict(&r) == w.result
                && r.steps() == w.steps
                && r.marks() == w.marks
                && r.rulapp() == 0
                && blanks == w.blanks
                && r.undfnd() == w.undfnd
                && w.cycles.is_none_or(|c| c == r.cycles())
                && r.halted() == w.undfnd.map(|u| u.0)
                && r.spnout()
                    == (w.result == "spnout").then_some(w.steps)
                && r.infrul()
                    == (w.result == "infrul").then_some(w.steps)
                && r.xlimit()
                    == (w.result == "xlimit").then_some(w.steps)
                && r.cfglim().is_none()
                && r.simple_termination()
                    == matches!(w.result, "spnout" | "undfnd")
                        .then_some(w.steps);
            stats.count(w.result);
            if w.steps > 6 {
                stats.sample(w.result, || json!({"prog": text, "lim": lim,
                    "got": full(&r)}));
            }
            if !ok {
                stats.violate("quick", &text, json!({"lim": lim,
                    "got": full(&r), "want": {"result": w.result,
                    "steps": w.steps, "marks": w.marks,
                    "blanks": w.blanks, "cycles": w.cycles}}));
            }
        }
        stats.ran(lims.len() as u64, steps);
    });
}

/// Verdicts of the accelerated run against a plain run.
pub fn prover(sp: &str, o: &Opts, stats: &Stats) {
    let lims = o.list("lims", "5,20,100,400");
    let near = o.num("near", 400);
    let far = o.num("far", 2_000_000);
    let never = o.num("never", 30_000);
    space::each(sp, &|p| {
        let text = p.show();
        stats.begin(&text);
        let mut f = fate(p, near);
        let mut reach = near;
        let mut work = f.steps;
        for &lim in &lims {
            let Some(r) = guarded(|| api::run_prover(&text, lim)) else {
                stats.violate("panic", &text, json!({"lim": lim}));
                continue;
            };
            let v = verdict(&r);
            let acc = if r.rulapp() > 0 { "+rule" } else { "" };
            stats.count(&format!("{v}{acc}"));
            let detail = |f: &crate::refm::Fate, reach: u64| {
                json!({"lim": lim, "got": full(&r), "plain": {
                    "end": format!("{:?}", f.end), "steps": f.steps,
                    "marks": f.marks, "blanks": f.blanks,
                    "horizon": reach}})
            };
            // a claim the near horizon cannot settle is followed further
            let claims = matches!(v.as_str(), "undfnd" | "spnout");
            if claims && f.end == End::Limit && reach < far {
                f = fate(p, far);
                reach = far;
                work += f.steps;
            }
            if v == "infrul" && f.end == End::Limit && reach < never {
                f = fate(p, never);
                reach = never;
                work += f.steps;
            }
            if r.rulapp() > 0 && matches!(v.as_str(), "undfnd" | "spnout" | "infrul") {
                stats.sample(&format!("{v}{acc}"), || {
                    json!({"prog": text, "detail": detail(&f, reach)})
                });
            }
            match v.as_str() {
                "undfnd" => {
                    let slot = r.undfnd().map(|u| u.1);
                    match f.end {
                        End::Halt(s, c)
                            if slot == Some((s.into(), c.into()))
                                && r.marks() == f.marks => {}
                        End::Limit => stats.count("beyond-horizon"),
                        _ => stats.violate("undfnd", &text, detail(&f, reach)),
                    }
                }
                "spnout" => match f.end {
                    End::Spin if r.marks() == f.marks => {}
                    End::Limit => stats.count("beyond-horizon"),
                    _ => stats.violate("spnout", &text, detail(&f, reach)),
                },
                "infrul" => {
                    if f.end != End::Limit {
                        stats.violate("infrul", &text, detail(&f, reach));
                    }
                }
                _ => {}
            }
            if r.rulapp() == 0 {
                // nothing was skipped: the counters are those of a plain run
                let (w, n) = expect_quick_plain(p, r.steps());
                work += n;
                if w.marks != r.marks() {
                    stats.violate("marks", &text, detail(&f, reach));
                }
                if claims && r.steps() != f.steps && f.end != End::Limit {
                    stats.violate("steps", &text, detail(&f, reach));
                }
            } else if f.end != End::Limit && r.steps() > f.steps {
                stats.violate("steps", &text, detail(&f, reach));
            }
            // blank events: those reported really happen, at these steps
            for (st, at) in r.blanks() {
                let hit = f.blanks.iter().find(|b| u64::from(b.0) == st);
                match hit {
                    Some(&(_, real)) => {
                        let ok = if r.rulapp() == 0 { real == at } else { at <= real };
                        if !ok {
                            stats.violate("blanks", &text, detail(&f, reach));
                        }
                    }
                    None if f.end != End::Limit => {
                        stats.violate("blanks", &text, detail(&f, reach));
                    }
                    None => stats.count("blank-beyond-horizon"),
                }
            }
        }
        stats.ran(lims.len() as u64, work);
    });
}

fn expect_quick_plain(p: &Prog, steps: u64) -> (crate::refm::Fate, u64) {
    let f = fate(p, steps);
    let n = f.steps;
    (f, n)
}

/// Backward reasoner and segment analysis: a "cannot" answer is never wrong.
pub fn reason(sp: &str, o: &Opts, stats: &Stats) {
    let lim = o.num("lim", 1000);
    let depths = o.list("depths", "0,1,2,3,5,20,256");
    let segs = o.list("segs", "2,3,5,8");
    let do_reason = o.num("reason", 1) == 1;
    let do_seg = o.num("seg", 1) == 1;
    space::each(sp, &|p| {
        let text = p.show();
        stats.begin(&text);
        let f = fate(p, lim);
        let mut calls = 0;
        let halts = matches!(f.end, End::Halt(..));
        let spins = f.end == End::Spin;
        let left = p.start_left_for_good();
        let open = p.mentions_undefined_row_or_column();
        if o.num("reentered", 0) == 1 && (left || open || p.t[0].is_none()) {
            return;
        }
        let mut ask = |name: &str, arg: u64, bad: bool, got: Option<Option<usize>>| {
            calls += 1;
            match got {
                None => stats.violate("panic", &text, json!({"call": name, "arg": arg})),
                Some(None) => stats.count(&format!("{name}:unknown")),
                Some(Some(n)) => {
                    stats.count(&format!("{name}:cannot"));
                    if n > 1 {
                        stats.sample(name, || json!({"prog": text, "arg": arg, "answer": n}));
                    }
                    if bad {
                        let kind = if p.t[0].is_none() && name == "cant_halt" {
                            "cant_halt/start-slot-undefined".to_owned()
                        } else if left && name != "segment_cant_halt" {
                            format!("{name}/start-never-reentered")
                        } else if open && name == "cant_halt" {
                            format!("{name}/undefined-row-or-column")
                        } else {
                            name.to_owned()
                        };
                        stats.violate(&kind, &text, json!({"arg": arg, "answer": n,
                            "end": format!("{:?}", f.end), "steps": f.steps,
                            "blanks": f.blanks, "erased": f.erased}));
                    }
                }
            }
        };
        if do_reason {
            for &d in &depths {
                let d = d as usize;
                ask("cant_halt", d as u64, halts, guarded(|| api::py_cant_halt(&text, d)));
                ask("cant_blank", d as u64, f.erased, guarded(|| api::py_cant_blank(&text, d)));
                ask("cant_spin_out", d as u64, spins, guarded(|| api::py_cant_spin_out(&text, d)));
            }
        }
        if do_seg {
            for &s in &segs {
                ask("segment_cant_halt", s, halts, guarded(|| api::py_segment_cant_halt(&text, s as usize)));
            }
        }
        stats.ran(calls, f.steps);
    });
}

/// What becomes of a program, found out once; None when so many wrong claims have
/// been seen that one more makes no difference.
fn later(p: &crate::refm::Prog, o: &Opts, stats: &Stats, wrong: &AtomicU64) -> Option<Later> {
    if wrong.load(Relaxed) > 64 {
        stats.count("not looked at, after many wrong claims");
        return None;
    }
    let at = recurs(p, o.num("repeat", 1 << 22));
    match at {
        Later::Repeats(n) => {
            stats.count(&format!("repeats within 2^{}", 64 - n.leading_zeros()));
        }
        Later::Halts => stats.count("halts past the limit"),
        Later::Spins => stats.count("spins out past the limit"),
        Later::Unknown => {
            stats.count("not seen to repeat");
            wrong.fetch_add(1, Relaxed);
        }
    }
    Some(at)
}

/// quick_term_or_rec on programs whose first instruction is 1RB.
pub fn rec(sp: &str, o: &Opts, stats: &Stats) {
    let lim = o.num("lim", 5000);
    let lims = o.list("lims", "2,3,5,10,30,100,1000");
    let wrong = AtomicU64::new(0);
    space::each(sp, &|p| {
        if p.t[0].map(|i| (i.print, i.right, i.next)) != Some((1, true, 1)) {
            return;
        }
        let text = p.show();
        stats.begin(&text);
        let f = fate(p, lim);
        let mut was = false;
        let mut sure = f.end == End::Spin;
        let mut known = None;
        let mut becomes = || *known.get_or_insert_with(|| later(p, o, stats, &wrong));
        #[cfg(feature = "inner")]
        let comp = <bb::verif_bridge::inner::CompProg as bb::verif_bridge::inner::Parse>::from_str(&text);
        for &n in &lims {
            #[cfg(feature = "inner")]
            match guarded(|| bb::verif_bridge::inner::quick_term_or_rec(&comp, n as usize, true)) {
                None => stats.violate("panic", &text, json!({"lim": n, "dropping": true})),
                Some(got) => {
                    let stops = matches!(f.end, End::Halt(..));
                    if got && !stops && !sure {
                        let at = becomes();
                        sure = matches!(at, None | Some(Later::Repeats(_) | Later::Spins));
                        if matches!(at, Some(Later::Unknown)) {
                            stats.violate("neither stops nor repeats", &text, json!({"lim": n}));
                        }
                    }
                    if !got && f.end != End::Limit && n > f.steps + 1 {
                        stats.violate("missed-stop", &text, json!({"lim": n, "steps": f.steps}));
                    }
                }
            }
            match guarded(|| api::py_quick_term_or_rec(&text, n as usize)) {
                None => stats.violate("panic", &text, json!({"lim": n})),
                Some(got) => {
                    stats.count(if got { "yes" } else { "no" });
                    if got && matches!(f.end, End::Halt(..)) {
                        stats.violate("halts", &text, json!({"lim": n,
                            "end": format!("{:?}", f.end), "steps": f.steps}));
                    }
                    if got && f.end == End::Limit && !sure {
                        sure = matches!(becomes(), None | Some(Later::Repeats(_) | Later::Spins));
                        if !sure {
                            stats.violate("does not repeat", &text, json!({"lim": n}));
                        }
                    }
                    if was && !got {
                        stats.violate("monotone", &text, json!({"lim": n}));
                    }
                    if f.end == End::Spin && n > f.steps + 1 && !got {
                        stats.violate("missed-spin", &text, json!({"lim": n, "steps": f.steps}));
                    }
                    was = got;
                }
            }
        }
        stats.ran(lims.len() as u64, f.steps);
        let _ = Ev::Ran;
    });
}
