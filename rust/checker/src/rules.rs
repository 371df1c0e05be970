//! Rules: inference from four repetitions, and application, on every input of
//! a bounded space, against repetition by hand in wide integers.
use std::collections::BTreeMap;

use bb::verif_bridge::rules::{
    apply_rule, make_rule, Count, Index, IndexTape, Op, Rule,
};
use rayon::prelude::*;
use serde_json::json;

use crate::runs::guarded;
use crate::stats::Stats;
use crate::Opts;

#[derive(Clone, PartialEq, Debug)]
struct Stub(BTreeMap<Index, Count>);

impl IndexTape for Stub {
    fn get_count(&self, index: &Index) -> Count {
        self.0[index]
    }
    fn set_count(&mut self, index: &Index, val: Count) {
        self.0.insert(*index, val);
    }
}

const EDGE: &[u64] = &[
    1,
    2,
    3,
    7,
    (1 << 31) - 1,
    1 << 31,
    (1 << 31) + 1,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 1,
    (1 << 32) + 3,
    1 << 33,
    (1 << 33) + 1,
    3 << 32,
    (3 << 32) + 1,
    (1 << 63) - 1,
    1 << 63,
    u64::MAX - 1,
    u64::MAX,
];

/// The rule found for one block on one side, if it is right.
fn judge(op: Option<&Op>, q: [u64; 4]) -> bool {
    let q = q.map(i128::from);
    let next = |x: i128| match op {
        None => x,
        Some(Op::Plus(d)) => x + i128::from(*d),
        Some(Op::Mult((m, a))) => x * i128::from(*m) + i128::from(*a),
    };
    q.windows(2).all(|w| next(w[0]) == w[1])
}

fn infer(q: [u64; 4], small: bool, stats: &Stats) {
    for side in [false, true] {
        let spans = |x: u64| {
            if side { (vec![], vec![5, x]) } else { (vec![5, x], vec![]) }
        };
        let c = q.map(spans);
        let got = guarded(|| make_rule(&c[0], &c[1], &c[2], &c[3]));
        let key = format!("{q:?} {}", if side { "right" } else { "left" });
        let Some(got) = got else {
            stats.violate("infer panics", &key, json!(null));
            continue;
        };
        let plain = q[1].wrapping_sub(q[0]);
        let arithmetic = small
            && q[2].wrapping_sub(q[1]) == plain
            && q[3].wrapping_sub(q[2]) == plain;
        match got {
            None => {
                if arithmetic {
                    stats.violate("infer misses a sum", &key, json!(null));
                }
            }
            Some(rule) => {
                stats.count("rules inferred");
                let right = rule.keys().all(|&k| k == (side, 1))
                    && judge(rule.get(&(side, 1)), q)
                    && !(arithmetic
                        && plain != 0
                        && !matches!(rule.get(&(side, 1)), Some(Op::Plus(_))));
                if !right {
                    stats.violate(
                        "infer",
                        &key,
                        json!(format!("{:?}", rule)),
                    );
                }
            }
        }
    }
    stats.ran(2, 6);
}

fn apply(blocks: &[(Index, i32, u64)], stats: &Stats) {
    let mut rule = Rule::new();
    let mut tape = Stub(BTreeMap::new());
    for &(index, diff, count) in blocks {
        tape.0.insert(index, count);
        if diff != 0 {
            rule.insert(index, Op::Plus(diff));
        }
    }
    // a block that no rule touches
    tape.0.insert((true, 9), 77);
    let before = tape.clone();
    let times = blocks
        .iter()
        .filter(|b| b.1 < 0)
        .map(|b| (i128::from(b.2) - 1) / -i128::from(b.1))
        .min()
        .unwrap_or(0);
    let mut want = Some(before.clone());
    if times < 1 {
        want = None;
    }
    if let Some(w) = &mut want {
        let mut fits = true;
        for &(index, diff, count) in blocks {
            let n = i128::from(count) + i128::from(diff) * times;
            match u64::try_from(n) {
                Ok(n) => {
                    w.0.insert(index, n);
                }
                Err(_) => fits = false,
            }
        }
        // the product itself must fit as well for the code to go on
        if !fits {
            want = None;
        }
    }
    let key = format!("{blocks:?}");
    let got = guarded(|| {
        let got = apply_rule(&rule, &mut tape);
        (got, tape.clone())
    });
    let Some((got, after)) = got else {
        stats.violate("apply panics", &key, json!(null));
        return;
    };
    match (&want, got) {
        (None, None) => {
            if after != before {
                stats.violate("changed, not applied", &key, json!(null));
            }
        }
        (Some(_), None) => {
            // refusing is allowed when an intermediate product is too wide
            let wide = blocks.iter().any(|b| {
                i128::from(b.1).abs() * times > i128::from(u64::MAX)
            });
            if !wide {
                stats.violate("not applied", &key, json!(null));
            } else if after != before {
                stats.violate("changed, not applied", &key, json!(null));
            }
        }
        (None, Some(n)) => {
            stats.violate("applied wrongly", &key, json!(n));
        }
        (Some(w), Some(n)) => {
            stats.count("rules applied");
            if *w != after || i128::from(n) != times {
                stats.violate(
                    "apply",
                    &key,
                    json!([n, format!("{:?}", after.0), times as u64]),
                );
            }
        }
    }
    stats.ran(1, times.clamp(0, 1 << 20) as u64);
}

pub fn rules(o: &Opts, stats: &Stats) {
    let n = o.num("quad", 18);
    (1..=n).into_par_iter().for_each(|a| {
        for b in 1..=n {
            for c in 1..=n {
                for d in 1..=n {
                    infer([a, b, c, d], true, stats);
                }
            }
        }
    });
    EDGE.par_iter().for_each(|&a| {
        for &b in EDGE {
            for &c in EDGE {
                for &d in EDGE {
                    infer([a, b, c, d], false, stats);
                }
            }
        }
    });
    // geometric growth, further up
    for m in 2..9u64 {
        for add in 0..40u64 {
            for a in 1..30u64 {
                let b = a * m + add;
                let c = b * m + add;
                infer([a, b, c, c * m + add], true, stats);
                infer([a, b, c, c * m + add + 1], true, stats);
            }
        }
    }
    let (dm, cm) = (o.num("diff", 3) as i32, o.num("count", 7));
    let at: [Index; 3] = [(false, 0), (true, 0), (true, 1)];
    let ops: Vec<(i32, u64)> = (-dm..=dm)
        .flat_map(|d| (1..=cm).map(move |c| (d, c)))
        .collect();
    ops.par_iter().for_each(|&x| {
        for &y in &ops {
            for &z in &ops {
                apply(
                    &[(at[0], x.0, x.1), (at[1], y.0, y.1), (at[2], z.0, z.1)],
                    stats,
                );
            }
        }
    });
    let wide: Vec<(i32, u64)> =
        [0, 1, -1, 2, -2, 3, -3, 1000, -1000, i32::MAX, i32::MIN, -i32::MAX]
            .iter()
            .flat_map(|&d| EDGE.iter().map(move |&c| (d, c)))
            .collect();
    wide.par_iter().for_each(|&x| {
        for &y in &wide {
            apply(&[(at[0], x.0, x.1), (at[1], y.0, y.1)], stats);
            apply(&[(at[1], x.0, x.1), (at[2], y.0, y.1)], stats);
        }
    });
}
