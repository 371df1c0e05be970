//! The boring reference: a one-cell-at-a-time Turing machine on a plain array.
use std::fmt::Write as _;

pub const MAXS: usize = 12;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ins {
    pub print: u8,
    pub right: bool,
    pub next: u8,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Prog {
    pub ns: usize,
    pub nc: usize,
    pub t: Vec<Option<Ins>>,
}

impl Prog {
    pub fn empty(ns: usize, nc: usize) -> Self {
        Self { ns, nc, t: vec![None; ns * nc] }
    }

    pub fn get(&self, s: usize, c: usize) -> Option<Ins> {
        self.t[s * self.nc + c]
    }

    pub fn set(&mut self, s: usize, c: usize, i: Option<Ins>) {
        self.t[s * self.nc + c] = i;
    }

    pub fn show(&self) -> String {
        let mut out = String::new();
        for s in 0..self.ns {
            if s > 0 {
                out.push_str("  ");
            }
            for c in 0..self.nc {
                if c > 0 {
                    out.push(' ');
                }
                match self.get(s, c) {
                    None => out.push_str("..."),
                    Some(i) => {
                        let _ = write!(
                            out,
                            "{}{}{}",
                            i.print,
                            if i.right { 'R' } else { 'L' },
                            (b'A' + i.next) as char
                        );
                    }
                }
            }
        }
        out
    }

    pub fn parse(s: &str) -> Self {
        let rows: Vec<Vec<Option<Ins>>> = s
            .trim()
            .split("  ")
            .map(|r| {
                r.split(' ')
                    .map(|i| {
                        let b = i.as_bytes();
                        (b[0] != b'.').then(|| Ins {
                            print: b[0] - b'0',
                            right: b[1] == b'R',
                            next: b[2] - b'A',
                        })
                    })
                    .collect()
            })
            .collect();
        let (ns, nc) = (rows.len(), rows[0].len());
        Self { ns, nc, t: rows.into_iter().flatten().collect() }
    }

    /// Every instruction over (ns, nc), simplest first.
    pub fn alphabet(ns: usize, nc: usize) -> Vec<Ins> {
        let mut out = vec![];
        for print in 0..nc {
            for right in [false, true] {
                for next in 0..ns {
                    out.push(Ins { print: print as u8, right, next: next as u8 });
                }
            }
        }
        out
    }

    /// The start state is not among the states that can be entered over and
    /// over (from a state which itself can be entered).
    pub fn start_left_for_good(&self) -> bool {
        let mut alive = vec![true; self.ns];
        loop {
            let mut next = vec![false; self.ns];
            for s in (0..self.ns).filter(|&s| alive[s]) {
                for c in 0..self.nc {
                    if let Some(i) = self.get(s, c) {
                        next[i.next as usize] = true;
                    }
                }
            }
            for s in 0..self.ns {
                next[s] &= alive[s];
            }
            if next == alive {
                return !alive[0];
            }
            alive = next;
        }
    }

    /// Some state that is entered, or colour that is printed (or the start
    /// state, or blank), has no instruction at all.
    pub fn mentions_undefined_row_or_column(&self) -> bool {
        let (mut ms, mut mc) = (0, 0);
        let (mut ks, mut kc) = (0, 0);
        for s in 0..self.ns {
            for c in 0..self.nc {
                if let Some(i) = self.get(s, c) {
                    ks = ks.max(s);
                    kc = kc.max(c);
                    ms = ms.max(i.next as usize);
                    mc = mc.max(i.print as usize);
                }
            }
        }
        ms > ks || mc > kc
    }

    pub fn defined(&self) -> usize {
        self.t.iter().filter(|i| i.is_some()).count()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    /// took one step
    Ran,
    /// undefined slot under the head: no step taken
    Undefined,
    /// would run off into blank tape in the same state for ever: no step taken
    Spin,
}

/// A configuration, cells explicit.
#[derive(Clone)]
pub struct Sim {
    pub cells: Vec<u8>,
    pub pos: usize,
    pub origin: usize,
    pub state: u8,
    pub steps: u64,
    /// non-blank cells strictly left / right of the head
    nl: i64,
    nr: i64,
    pub last_print: u8,
}

impl Sim {
    pub fn new() -> Self {
        Self::with_cap(64)
    }

    pub fn with_cap(n: usize) -> Self {
        Self {
            cells: vec![0; n],
            pos: n / 2,
            origin: n / 2,
            state: 0,
            steps: 0,
            nl: 0,
            nr: 0,
            last_print: 0,
        }
    }

    pub fn scan(&self) -> u8 {
        self.cells[self.pos]
    }

    pub fn blank(&self) -> bool {
        self.nl == 0 && self.nr == 0 && self.scan() == 0
    }

    pub fn marks(&self) -> u64 {
        (self.nl + self.nr) as u64 + u64::from(self.scan() != 0)
    }

    pub fn head(&self) -> isize {
        self.pos as isize - self.origin as isize
    }

    pub fn slot(&self) -> (u8, u8) {
        (self.state, self.scan())
    }

    pub fn edge(&self, right: bool) -> bool {
        self.scan() == 0 && (if right { self.nr } else { self.nl }) == 0
    }

    pub fn step(&mut self, p: &Prog) -> Ev {
        let scan = self.scan();
        let Some(i) = p.get(self.state as usize, scan as usize) else {
            return Ev::Undefined;
        };
        if i.next == self.state && self.edge(i.right) {
            return Ev::Spin;
        }
        self.force(i);
        Ev::Ran
    }

    pub fn force(&mut self, i: Ins) {
        self.cells[self.pos] = i.print;
        self.last_print = i.print;
        let was = i64::from(i.print != 0);
        if i.right {
            if self.pos + 1 == self.cells.len() {
                let n = self.cells.len();
                self.cells.resize(2 * n, 0);
            }
            self.pos += 1;
            self.nl += was;
            self.nr -= i64::from(self.scan() != 0);
        } else {
            if self.pos == 0 {
                let n = self.cells.len();
                let mut more = vec![0; n];
                more.extend_from_slice(&self.cells);
                self.cells = more;
                self.pos += n;
                self.origin += n;
            }
            self.pos -= 1;
            self.nr += was;
            self.nl -= i64::from(self.scan() != 0);
        }
        self.state = i.next;
        self.steps += 1;
    }

    /// Non-blank part of the tape, with the head position relative to it:
    /// equal keys iff equal configurations up to translation.
    pub fn key(&self) -> (u8, Vec<u8>, isize) {
        let a = self.cells.iter().position(|&c| c != 0);
        match a {
            None => (self.state, vec![], 0),
            Some(a) => {
                let b = self.cells.iter().rposition(|&c| c != 0).unwrap();
                (
                    self.state,
                    self.cells[a..=b].to_vec(),
                    self.pos as isize - a as isize,
                )
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Halt(u8, u8),
    Spin,
    Limit,
}

/// Everything the properties ask about a run from the blank tape, up to `lim`
/// steps.  Blank events: the tape is blank after a step that printed a blank.
pub struct Fate {
    pub end: End,
    pub steps: u64,
    pub marks: u64,
    /// (state, step) of every first blank in a state
    pub blanks: Vec<(u8, u64)>,
    /// step at which a blank state recurred, or blank in the start state
    pub blank_loop: Option<u64>,
    /// tape blank at any step > 0
    pub blanked: bool,
    /// blank after a step which overwrote a non-blank with a blank
    pub erased: bool,
}

pub fn fate(p: &Prog, lim: u64) -> Fate {
    let mut s = Sim::new();
    let mut f = Fate {
        end: End::Limit,
        steps: 0,
        marks: 0,
        blanks: vec![],
        blank_loop: None,
        blanked: false,
        erased: false,
    };
    while s.steps < lim {
        let scan = s.scan();
        match s.step(p) {
            Ev::Undefined => {
                f.end = End::Halt(s.state, s.scan());
                break;
            }
            Ev::Spin => {
                f.end = End::Spin;
                break;
            }
            Ev::Ran => {}
        }
        if s.blank() {
            f.blanked = true;
            if scan != 0 {
                f.erased = true;
            }
            if f.blank_loop.is_none() && s.last_print == 0 {
                if s.state == 0
                    || f.blanks.iter().any(|&(st, _)| st == s.state)
                {
                    f.blank_loop = Some(s.steps);
                }
                if !f.blanks.iter().any(|&(st, _)| st == s.state) {
                    f.blanks.push((s.state, s.steps));
                }
            }
        }
    }
    f.steps = s.steps;
    f.marks = s.marks();
    f
}

#[derive(Clone, Copy)]
pub enum Later {
    Halts,
    Spins,
    Repeats(u64),
    Unknown,
}

/// Whether the run from the blank tape is seen to repeat itself, in place or
/// shifted, within `lim` steps: two configurations with the same state and the
/// same cells wherever the run between them looks, out to the end the head
/// drifts to.  The first of the pair is the one at each power of two.
pub fn recurs(p: &Prog, lim: u64) -> Later {
    let mut sim = Sim::new();
    let mut old = sim.clone();
    let (mut lo, mut hi) = (0_isize, 0_isize);
    let at = |s: &Sim, x: isize| {
        let i = x + s.origin as isize;
        if i < 0 || i as usize >= s.cells.len() { 0 } else { s.cells[i as usize] }
    };
    while sim.steps < lim {
        if sim.steps.is_power_of_two() {
            old = sim.clone();
            lo = sim.head();
            hi = lo;
        }
        match sim.step(p) {
            Ev::Ran => {}
            Ev::Spin => return Later::Spins,
            Ev::Undefined => return Later::Halts,
        }
        let h = sim.head();
        lo = lo.min(h);
        hi = hi.max(h);
        if sim.slot() != old.slot() {
            continue;
        }
        let d = h - old.head();
        let (a, b) = match d {
            0 => (lo, hi),
            d if d > 0 => (lo, (sim.cells.len() as isize).max(old.cells.len() as isize) - sim.origin as isize),
            _ => (-(sim.origin as isize), hi),
        };
        // nearest to the head first: that is where a difference shows
        let o = old.head();
        let same = |x: isize| at(&old, x) == at(&sim, x + d);
        let (a, b) = if d == 0 { (a, b) } else { (a.min(o), b.max(o)) };
        if (o..=b).all(same) && (a..o).rev().all(same) {
            return Later::Repeats(sim.steps);
        }
    }
    Later::Unknown
}
