//! From a seed to a plan. Every run draws its own sizes, storage, operation mix and fault mix.
use crate::ctx::Fault;
use crate::plan::{Op, Plan, Step};
use crate::rng::{mix, Rng};

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let p: u64 = prop.bytes().fold(7, |a, b| a * 131 + b as u64);
    mix(&[base, p, i])
}

struct G {
    r: Rng,
    steps: Vec<Step>,
    slots: i64,
    /// weights of key modes, redrawn now and then
    modes: [u32; 6],
    /// fault kinds of this run and their rate in permille
    faults: Vec<Fault>,
    rate: u64,
    sim: bool,
    prop: u32,
}

fn step(op: Op, a: i64, b: i64, c: i64) -> Step {
    Step { op, a, b, c, fault: Fault::None, n: 0, script: vec![] }
}

impl G {
    fn sel(&mut self) -> i64 {
        (self.r.next() >> 40) as i64
    }

    fn slot(&mut self) -> i64 {
        self.r.below(self.slots as u64) as i64
    }

    fn reshuffle(&mut self) {
        const MIXES: [[u32; 6]; 7] = [
            [4, 2, 2, 1, 1, 0],
            [0, 0, 6, 1, 1, 0],
            [1, 1, 0, 0, 8, 0],
            [1, 1, 0, 8, 0, 0],
            [0, 1, 0, 0, 0, 8],
            [1, 8, 1, 0, 0, 0],
            [8, 1, 0, 0, 0, 0],
        ];
        self.modes = MIXES[self.r.below(7) as usize];
    }

    fn mode(&mut self) -> i64 {
        let m = self.modes;
        self.r.weighted(&m) as i64
    }

    /// Removal keys mostly exist.
    fn rmode(&mut self) -> i64 {
        if self.r.permille(850) { 1 } else { self.mode() }
    }

    fn fault_n(&mut self, f: Fault) -> u32 {
        let r = &mut self.r;
        (match f {
            Fault::Alloc => [1, 1, 1, 1, 1, 2, 2, 2, 3, 4][r.below(10) as usize],
            Fault::Cmp => match r.below(4) {
                0 => 1,
                1 => 1 + r.below(4),
                _ => 1 + r.below(16),
            },
            Fault::Byz => r.below(4096),
            Fault::Reent => {
                let k = [2, 6, 20, 80][r.below(4) as usize];
                1 + r.below(k)
            }
            _ => match r.below(5) {
                0 => 1,
                1 => 1 + r.below(4),
                2 => 1 + r.below(16),
                3 => 1 + r.below(64),
                _ => 1 + r.below(400),
            },
        }) as u32
    }

    /// Attaches a fault this operation can meet.
    fn faulty(&mut self, mut s: Step) -> Step {
        use Op::*;
        if self.faults.is_empty() || !self.r.permille(self.rate) {
            return s;
        }
        let ok: Vec<Fault> = self
            .faults
            .iter()
            .copied()
            .filter(|f| match f {
                Fault::Cmp => matches!(s.op, Ins | Rem | Get | GetM | NGet | NodeEd | Map),
                Fault::Alloc => self.sim && matches!(s.op, Ins | InsAt | RemAt | Clone | Map),
                Fault::Clone => matches!(s.op, Clone | Map),
                Fault::Drop => matches!(s.op, Clear | DropT | Into),
                Fault::Visit => matches!(s.op, Visit),
                Fault::Byz => matches!(s.op, Ins | Rem | Get | GetM | NGet | Fill | Drain),
                Fault::Fmt => matches!(s.op, Dot),
                Fault::Reent => !matches!(s.op, Forget | Swap | Fill | Drain | RepAt | Ends),
                _ => false,
            })
            .collect();
        if ok.is_empty() {
            return s;
        }
        let f = ok[self.r.below(ok.len() as u64) as usize];
        s.fault = f;
        s.n = self.fault_n(f);
        s
    }

    fn script(&mut self, max: u64) -> Vec<u8> {
        let n = match self.r.below(3) {
            0 => self.r.below(4),
            1 => self.r.below(16.min(max) + 1),
            _ => self.r.below(max + 1),
        };
        // some scripts only go one way, some alternate, most do anything
        let kind = self.r.below(4);
        (0..n)
            .map(|i| {
                let x = self.r.next() as u8;
                match kind {
                    0 => (x & 0xF0) | (x & 15) % 5,
                    1 => (x & 0xF0) | if i % 2 == 0 { 1 } else { 8 },
                    _ => x,
                }
            })
            .collect()
    }

    fn wscript(&mut self) -> Vec<u8> {
        let n = match self.r.below(4) {
            0 => 0,
            1 => 1 + self.r.below(8),
            2 => 1 + self.r.below(60),
            _ => 1 + self.r.below(1500),
        };
        let bad = self.r.below(3);
        let dense = [30, 200, 600][self.r.below(3) as usize];
        let mut v: Vec<u8> = (0..n)
            .map(|_| {
                let hi = (self.r.next() as u8) & 0xF8;
                if self.r.permille(dense) { hi | [3, 4][self.r.below(2) as usize] } else { hi }
            })
            .collect();
        if bad > 0 && n > 0 {
            let k = self.r.below(n) as usize;
            let hi = v[k] & 0xF8;
            v[k] = hi | [5, 5, 6, 7][self.r.below(4) as usize];
        }
        v
    }

    fn push(&mut self, op: Op) {
        use Op::*;
        let a = self.slot();
        let b = self.sel();
        let s = match op {
            Ins => step(op, a, b, self.mode()),
            Rem => step(op, a, b, self.rmode()),
            Get | GetM | NGet => step(op, a, b, if self.r.permille(500) { 1 } else { self.mode() }),
            Ends => step(op, a, b, self.r.below(2) as i64),
            Clone | Swap => {
                let d = self.slot();
                let c = self.r.below(3) as i64;
                step(op, a, d, c)
            }
            Fill => {
                let n = match self.r.below(3) {
                    0 => 1 + self.r.below(12),
                    1 => 1 + self.r.below(60),
                    _ => 1 + self.r.below(200),
                };
                let c = self.r.below(1 << 12) as i64;
                step(op, a, n as i64, c)
            }
            Drain => {
                let n = match self.r.below(4) {
                    0 => 1 + self.r.below(12),
                    1 => 1 + self.r.below(60),
                    2 => 1 + self.r.below(200),
                    _ => 100_000,
                };
                let c = self.r.below(1 << 12) as i64;
                step(op, a, (n as i64).min(5000), c)
            }
            Iter | IterM => {
                // how the iteration ends: abandoned, or through an adaptor
                let fin = if self.r.below(3) == 0 { 0 } else { self.r.below(1 << 12) as i64 };
                let mut s = step(op, a, b, fin);
                s.script = if self.prop != 15 {
                    self.script(60)
                } else if op == Iter {
                    vec![[13, 14][self.r.below(2) as usize]]
                } else {
                    [vec![], vec![13], vec![14]][self.r.below(3) as usize].clone()
                };
                if self.prop == 15 && op == Iter { s.c = 0 }
                s
            }
            Into => {
                let mode = match self.prop {
                    10 => [0, 0, 4][self.r.below(3) as usize],
                    // leaking the iterator is allowed anywhere but hides leaks: rare
                    _ => [0, 0, 2, 3, 4, 4, 5][self.r.below(7) as usize],
                };
                let fin = self.r.below(1 << 12) as i64;
                let mut s = step(op, a, mode, fin);
                s.script = self.script(60);
                s
            }
            NodeEd | Map | Cursor => {
                let mut s = step(op, a, self.r.below(1 << 30) as i64, 0);
                s.script = self.script(90);
                s
            }
            Unit => {
                let mut s = step(op, a, b, self.r.below(1 << 10) as i64);
                s.script = self.script(60);
                s
            }
            Dot => {
                let mut s = step(op, a, b, 0);
                s.script = self.wscript();
                s
            }
            _ => step(op, a, b, self.r.below(1 << 10) as i64),
        };
        let s = self.faulty(s);
        let again = s.fault == Fault::Alloc && self.r.permille(500);
        self.steps.push(s.clone());
        if again {
            // the storage has room again
            self.steps.push(Step { fault: Fault::None, n: 0, ..s });
        }
    }
}

/// Operation weights per property.
fn mixture(prop: u32) -> Vec<(Op, u32)> {
    use Op::*;
    match prop {
        1 => vec![(Ins, 30), (Rem, 28), (Get, 8), (NGet, 3), (GetM, 4), (Ends, 4), (Clear, 1), (Fill, 3), (Drain, 3), (Swap, 1), (Clone, 1), (Unit, 1)],
        2 => vec![(Ins, 30), (Rem, 26), (Get, 8), (NGet, 3), (GetM, 8), (Ends, 1), (Fill, 3), (Drain, 3), (Iter, 1), (Clear, 1)],
        3 => vec![(Ins, 40), (InsAt, 16), (Rem, 14), (Clone, 6), (RemAt, 8), (Fill, 4), (Drain, 3), (Get, 2), (Clear, 1), (DropT, 1), (Into, 1)],
        4 => vec![(Ins, 30), (Rem, 30), (InsAt, 10), (RemAt, 12), (RepAt, 2), (Fill, 4), (Drain, 4), (Clone, 3), (Visit, 2), (GetM, 1), (Clear, 2), (IterM, 1), (DropT, 1), (Swap, 1), (Unit, 1)],
        5 => vec![(Ins, 26), (Rem, 20), (InsAt, 6), (RemAt, 8), (RepAt, 3), (Fill, 4), (Drain, 3), (Clone, 4), (Swap, 2), (Clear, 3), (DropT, 3), (Forget, 2), (Into, 8), (IterM, 1), (Visit, 1), (GetM, 1), (Unit, 2)],
        6 => vec![(Ins, 26), (Rem, 24), (InsAt, 8), (RemAt, 10), (RepAt, 2), (Fill, 4), (Drain, 4), (Clone, 3), (Swap, 1), (Clear, 2), (DropT, 2), (Forget, 2), (Into, 3), (Iter, 2), (IterM, 1), (Visit, 2), (Nav, 3), (Walk, 1), (Get, 3), (NGet, 1), (Ends, 1), (Unit, 1)],
        7 => vec![(Iter, 26), (IterM, 20), (Into, 12), (Ins, 8), (Rem, 8), (Fill, 10), (Drain, 6), (Clone, 1), (Unit, 1)],
        8 => vec![(InsAt, 28), (RemAt, 28), (RepAt, 8), (Nav, 16), (Edge, 12), (Walk, 8), (Ins, 6), (Rem, 6), (Fill, 4), (Drain, 4)],
        9 => vec![(Clone, 22), (Ins, 14), (Rem, 14), (InsAt, 4), (RemAt, 6), (GetM, 4), (IterM, 2), (Visit, 2), (Fill, 5), (Drain, 4), (Clear, 2), (DropT, 2), (Forget, 1), (Into, 2), (Swap, 2), (Iter, 2), (Dot, 1)],
        10 => vec![(Clear, 14), (DropT, 10), (Into, 24), (Ins, 14), (Rem, 8), (Fill, 24), (Drain, 2), (Clone, 2), (Iter, 2), (Get, 2)],
        11 => vec![(Dot, 40), (Ins, 10), (Rem, 10), (Fill, 8), (Drain, 6), (InsAt, 3), (RemAt, 4), (Get, 2), (Clone, 1), (Iter, 1)],
        13 => vec![(Ins, 34), (Rem, 30), (Get, 8), (NGet, 3), (GetM, 5), (Fill, 5), (Drain, 5), (Iter, 3), (Clear, 1), (Ends, 2)],
        14 => vec![(Visit, 34), (Ins, 12), (Rem, 14), (Fill, 9), (Drain, 6), (InsAt, 3), (RemAt, 5), (Clone, 2), (Iter, 2), (Get, 2)],
        15 => vec![(Ins, 26), (Rem, 26), (Get, 8), (NGet, 2), (GetM, 2), (Ends, 3), (InsAt, 10), (RemAt, 10), (RepAt, 2), (Nav, 10), (Edge, 2), (Iter, 4), (IterM, 2), (Into, 1), (Fill, 4), (Drain, 3), (Clone, 1), (Visit, 1)],
        16 => vec![(Map, 1)],
        17 => vec![(Cursor, 40), (Ins, 18), (Rem, 14), (InsAt, 6), (RemAt, 6), (Fill, 4), (Drain, 3), (Clear, 1)],
        22 => vec![(NodeEd, 1)],
        21 => vec![(Damage, 40), (Ins, 20), (Rem, 16), (InsAt, 4), (RemAt, 5), (Fill, 6), (Drain, 4), (Clone, 1), (Visit, 1), (Clear, 1)],
        20 => vec![(Ins, 22), (Rem, 18), (Get, 12), (GetM, 4), (Clone, 6), (Iter, 8), (IterM, 4), (Into, 4), (Visit, 8), (Dot, 6), (Clear, 3), (DropT, 2), (InsAt, 6), (RemAt, 4), (Fill, 5), (Drain, 3), (Walk, 1)],
        _ => vec![(Ins, 30), (Rem, 26), (Get, 6), (InsAt, 8), (RemAt, 8), (Fill, 3), (Drain, 3)],
    }
}

pub fn plan(prop: &str, seed: u64, build: &str, thorough: bool) -> Plan {
    let pn: u32 = prop[1..].parse().unwrap_or(0);
    let mut r = Rng::new(seed);
    let sim = match pn {
        3 => true,
        6 => r.permille(850),
        15 => r.permille(800),
        _ => r.permille(550),
    };
    let slots = match pn {
        9 => 2 + r.below(2) as usize,
        5 | 6 => 1 + r.below(3) as usize,
        12 | 13 => 1,
        _ => [1, 1, 2][r.below(3) as usize],
    };
    let faults: Vec<Fault> = {
        let all: &[Fault] = match pn {
            2 => &[Fault::Cmp],
            3 => &[Fault::Alloc],
            9 => &[Fault::Clone, Fault::Alloc],
            10 => &[Fault::Drop],
            11 => &[Fault::Fmt],
            13 => &[Fault::Byz],
            14 => &[Fault::Visit],
            4 => &[Fault::Cmp, Fault::Alloc, Fault::Clone, Fault::Drop, Fault::Visit],
            5 | 15 => &[Fault::Cmp, Fault::Alloc, Fault::Clone, Fault::Visit],
            22 => &[Fault::Cmp],
            16 => &[Fault::Cmp, Fault::Clone, Fault::Alloc],
            17 => &[Fault::Cmp, Fault::Alloc],
            21 => &[Fault::Cmp, Fault::Alloc, Fault::Clone],
            1 | 6 | 7 | 8 => &[Fault::Cmp, Fault::Alloc],
            20 => &[Fault::Reent],
            _ => &[],
        };
        if matches!(pn, 2 | 3 | 10 | 13 | 20) {
            // the property is about this fault: always there
            all.to_vec()
        } else if r.permille(400) {
            vec![] // fault-free configuration
        } else {
            all.iter().copied().filter(|_| r.permille(700)).collect()
        }
    };
    let rate = match pn {
        13 => [100, 500, 1000][r.below(3) as usize],
        10 => 700,
        11 => 100,
        20 => [300, 600, 900][r.below(3) as usize],
        _ => [60, 200, 500][r.below(3) as usize],
    };
    // size class: number of items to start from, number of steps
    let (n0, len) = match r.below(100) {
        0..=19 => (r.below(10), 4 + r.below(16)),
        20..=54 => (r.below(60), 10 + r.below(60)),
        55..=84 => (r.below(300), 20 + r.below(120)),
        85..=97 => (r.below(900), 20 + r.below(200)),
        _ => (r.below(if thorough { 5000 } else { 2600 }), 20 + r.below(100)),
    };
    let len = if thorough { len + len * r.below(3) } else { len };
    // a few trees large enough to tell logarithmic from linear work, or to overflow small counters
    let huge = match pn {
        12 => false, // a switch of threads at each of millions of steps takes too long
        15 => r.permille(6),
        11 => r.below(10_000) == 0,
        _ => r.below(10_000) < 4,
    };
    let (n0, len) = if !huge {
        (n0, len)
    } else if pn == 15 {
        (8_000 + r.below(if thorough { 56_000 } else { 24_000 }), 8 + r.below(12))
    } else {
        // often past 2^16 items
        (if r.below(3) == 0 { 66_000 + r.below(4_000) } else { 8_000 + r.below(if thorough { 132_000 } else { 62_000 }) }, 6 + r.below(10))
    };
    let pad = match r.below(100) {
        0..=14 => 104,
        // without destructors there is nothing to see
        15..=29 if !matches!(pn, 5 | 10) => 1,
        _ => 0,
    };
    let mut g = G { r, steps: vec![], slots: slots as i64, modes: [1; 6], faults, rate, sim, prop: pn };
    g.reshuffle();
    let (mut threads, mut sched_seed, mut switch) = (0, 0, 0);
    if n0 > 0 {
        let c = g.r.below(1 << 12) as i64;
        g.steps.push(step(Op::Fill, 0, n0 as i64, c));
        if g.r.permille(if huge { 500 } else { 300 }) {
            let c = g.r.below(1 << 12) as i64;
            let k = g.r.below(n0 + 1) as i64;
            g.steps.push(step(Op::Drain, 0, k, c));
        }
    }
    // calls on different trees also meet across threads
    if pn == 12 || (pn == 20 && !huge && g.r.permille(350)) {
        threads = 2 + g.r.below(3) as usize;
        sched_seed = g.r.next();
        switch = [20, 100, 300, 600, 1000][g.r.below(5) as usize];
        threaded(&mut g, threads as u64, (len / 2).max(6));
    } else {
        let base = mixture(pn);
        // swarm: most runs leave out part of the operations
        let mut w: Vec<(Op, u32)> = base.clone();
        if g.r.permille(600) {
            let keep = 300 + g.r.below(600);
            w = base.iter().copied().filter(|_| g.r.permille(keep)).collect();
            if w.is_empty() {
                w = base.clone();
            }
            // the operations a property is about stay
            let need: &[Op] = match pn {
                2 => &[Op::Ins, Op::Rem],
                3 => &[Op::Ins, Op::InsAt],
                9 => &[Op::Clone],
                10 => &[Op::Fill, Op::Into, Op::Clear],
                11 => &[Op::Dot],
                13 => &[Op::Ins],
                14 => &[Op::Visit],
                17 => &[Op::Cursor],
                21 => &[Op::Damage],
                7 => &[Op::Iter, Op::IterM],
                8 => &[Op::InsAt, Op::RemAt],
                _ => &[],
            };
            for o in need {
                if !w.iter().any(|x| x.0 == *o) {
                    w.push(*base.iter().find(|x| x.0 == *o).unwrap());
                }
            }
        }
        // trees grow or shrink by phases
        let mut bias = 0;
        let mut i = 0;
        while i < len {
            if i % 24 == 0 {
                bias = g.r.below(3);
                g.reshuffle();
            }
            let ww: Vec<u32> = w
                .iter()
                .map(|(o, x)| match (o, bias) {
                    (Op::Ins | Op::InsAt | Op::Fill, 1) | (Op::Rem | Op::RemAt | Op::Drain, 2) => x * 4,
                    _ => *x * 2,
                })
                .collect();
            let k = g.r.weighted(&ww);
            g.push(w[k].0);
            i += 1;
        }
    }
    Plan {
        prop: prop.into(),
        seed,
        storage: if sim { "sim" } else { "box" }.into(),
        pad,
        storage_seed: mix(&[seed, 0x5707]),
        policy: None,
        slots,
        sched_seed,
        switch_permille: switch,
        threads,
        explicit: None,
        build: build.into(),
        steps: g.steps,
    }
}

fn threaded(g: &mut G, k: u64, len: u64) {
    use Op::*;
    let faulty = g.r.permille(500);
    let mut i = 0;
    while i < len {
        // a read phase
        let many = 2 + g.r.below(3 * k);
        let one_kind = g.r.permille(300);
        let own = if g.prop == 20 { 120 } else { 12 };
        let kinds = [(TGet, 40), (TEnds, 8), (TIter, 20), (TNav, 10), (TVisit, 6), (TClone, 8), (TWalk, 5), (TOwn, own)];
        let w: Vec<u32> = kinds.iter().map(|x| x.1).collect();
        let fixed = g.r.weighted(&w);
        for _ in 0..many {
            let op = kinds[if one_kind { fixed } else { g.r.weighted(&w) }].0;
            let t = g.r.below(k) as i64;
            let b = g.sel();
            let c = g.r.below(1 << 10) as i64;
            let mut s = step(op, t, b, c);
            if op == TIter {
                s.script = g.script(30);
                if !faulty {
                    for x in &mut s.script {
                        if *x & 15 == 15 {
                            *x -= 5
                        }
                    }
                }
            }
            if faulty && g.r.permille(200) {
                let f = match op {
                    TGet | TNav | TWalk => Fault::Cmp,
                    TVisit => Fault::Visit,
                    TClone if g.prop != 20 => Fault::Clone,
                    _ => Fault::None,
                };
                if f != Fault::None {
                    s.fault = f;
                    s.n = g.fault_n(f);
                }
            }
            g.steps.push(s);
            i += 1;
        }
        g.steps.push(step(TBarrier, 0, 0, 0));
        // exclusive work, by any thread
        for _ in 0..g.r.below(5) {
            let t = g.r.below(k) as i64;
            let b = g.sel();
            let c = g.r.below(1 << 12) as i64;
            let mut s = step(TWrite, t, b, c);
            s.script = g.script(20);
            g.steps.push(s);
            i += 1;
        }
        if g.r.permille(80) {
            let b = g.sel();
            let c = g.r.below(1 << 10) as i64;
            let t = g.r.below(k) as i64;
            let mut s = step(THand, t, b, c);
            s.script = g.script(30);
            g.steps.push(s);
            let n = g.r.below(200) as i64;
            let c = g.r.below(1 << 12) as i64;
            g.steps.push(step(Fill, 0, n, c));
        }
    }
}
