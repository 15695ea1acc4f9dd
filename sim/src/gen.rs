//! Scenario generators. One seed decides everything.

use crate::model::Variant;
use crate::rng::{mix, Rng};
use crate::scenario::Scenario;

fn hash_name(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

pub fn generate(prop: &str, seed: u64, index: u64, tier: &str) -> Scenario {
    let run_seed = mix(mix(seed).wrapping_add(hash_name(prop)).wrapping_add(mix(index)));
    let mut g = G {
        r: Rng::new(run_seed),
        sc: Scenario::new(prop, run_seed),
        at: vec![None; 48],
        ck: vec![None; 48],
        thorough: tier == "thorough",
        mode: 0,
    };
    g.mode = g.r.below(6);
    // Seldom, sizes that are much larger than usual.
    let (vast, wide) = match prop {
        "C01" => (3000, 0),
        "C02" => (4000, 6000),
        "C03" => (9000, 0),
        "C04" => (9000, 1000),
        "C05" => (9000, 1000),
        "C06" => (0, 1000),
        "C08" => (9000, 4000),
        "C15" => (2500, 0),
        "C16" => (4000, 4000),
        "C19" => (3000, 1500),
        "C23" => (300, 150),
        _ => (0, 0),
    };
    if vast > 0 && g.r.below(vast) == 0 {
        g.vast(prop);
        return g.sc;
    }
    if wide > 0 && g.r.below(wide) == 0 {
        g.wide(prop);
        return g.sc;
    }
    match prop {
        "C01" => g.streams(),
        "C02" => g.accounting(),
        "C03" => g.snapshots(),
        "C04" => g.batches(false),
        "C05" => g.jobs(false),
        "C06" => {
            if g.r.pct(60) {
                g.batches(true)
            } else {
                g.jobs(true)
            }
        }
        "C08" => {
            let levels = g.r.pct(50) as u64;
            g.sc.set("levels", levels);
            g.everything()
        }
        "C13" => g.tree(),
        "C14" => g.everything(),
        "C15" => g.writers(),
        "C16" => g.everything(),
        "C19" => g.everything(),
        "C23" => match g.r.below(8) {
            0 => g.batches(true),
            1 => g.jobs(true),
            _ => g.everything(),
        },
        "C20" => crate::builder::generate(&mut g.r, &mut g.sc, g.thorough),
        "C21" => crate::twins::generate(&mut g.r, &mut g.sc, true, g.thorough),
        "C22" => crate::twins::generate(&mut g.r, &mut g.sc, false, g.thorough),
        _ => panic!("unknown property {}", prop),
    }
    g.sc
}

#[derive(Clone, Copy)]
struct At {
    v: Variant,
    /// Bytes absorbed as far as the generator can tell, and where the key
    /// block puts the block boundaries (it does not move them).
    n: u64,
}

struct G {
    r: Rng,
    sc: Scenario,
    at: Vec<Option<At>>,
    ck: Vec<Option<At>>,
    thorough: bool,
    /// How segment lengths are drawn in this run.
    mode: u64,
}

impl G {
    fn mask(&mut self) -> u64 {
        match self.r.below(5) {
            0 => 0,
            1 => 2,
            2 => self.r.below(128) & self.r.below(128),
            _ => self.r.below(128),
        }
    }

    fn route(&mut self) -> u64 {
        let a = if self.r.pct(20) { 1 } else { 0 };
        let b = if self.r.pct(50) { self.r.below(64) } else { 0 };
        a | b << 1
    }

    fn align(&mut self) -> u64 {
        self.r.next() & 0xffffff
    }

    /// A segment length, relative to the position `n` in the stream.
    fn len(&mut self, v: Variant, n: u64) -> u64 {
        let (b, row) = (v.block() as u64, v.row() as u64);
        let mode = if self.r.pct(60) { self.mode } else { self.r.below(6) };
        match mode {
            0 => self.r.below(4),
            1 => self.r.below(2 * b),
            // Land exactly on, just before or just after a boundary.
            2 | 3 => {
                let unit = *self.r.pick(&[b, b, row, 2 * row, 4 * b, 8 * b]);
                let k = 1 + self.r.below(4);
                let target = (n / unit + k) * unit;
                let d = *self.r.pick(&[0, 0, 0, 1, 1, 2, b - 1, b + 1]);
                let t = if self.r.pct(50) { target + d } else { target.saturating_sub(d) };
                t.saturating_sub(n)
            }
            4 => self.r.below(4 * row),
            _ => {
                let k = self.r.below(12) * b;
                let d = *self.r.pick(&[0, 0, 1, b - 1]);
                k + d
            }
        }
    }

    fn big_len(&mut self) -> u64 {
        match self.r.below(4) {
            0 => 65536 - 2 + self.r.below(5),
            1 => self.r.below(20) * 16384 + self.r.below(3),
            2 => 32768 + self.r.below(3),
            _ => self.r.below(if self.thorough { 900_000 } else { 200_000 }),
        }
    }

    fn open(&mut self, s: usize, v: Variant) {
        let mask = self.mask();
        self.open_with(s, v, mask, 0);
    }

    fn open_with(&mut self, s: usize, v: Variant, mask: u64, route_bits: u64) {
        let (p, cpu) = (self.r.next() >> 16, self.r.below(3));
        let route = (self.r.below(4)) | route_bits | self.r.below(2) << 5 | self.route() << 8;
        self.sc.push("open", &[s as u64, v.idx(), p, mask, cpu, route]);
        self.at[s] = Some(At { v, n: 0 });
        if self.r.pct(4) {
            let (back, which) = (self.r.below(6), self.which_jump());
            self.sc.push("jump", &[s as u64, back, which]);
        }
    }

    fn feed(&mut self, s: usize) {
        if let Some(a) = self.at[s] {
            let len = if self.r.below(400) == 0 { self.big_len() } else { self.len(a.v, a.n) };
            let (al, how) = (self.align(), if self.r.pct(60) { 0 } else { self.r.below(4) });
            self.sc.push("feed", &[s as u64, len, al, how]);
            self.at[s].as_mut().unwrap().n += len;
        }
    }

    fn ckpt(&mut self, s: usize, d: usize) {
        let s = self.live(s);
        self.sc.push("ckpt", &[s as u64, d as u64]);
        if self.at[s].is_some() {
            self.ck[d] = self.at[s];
        }
    }

    /// Mostly a slot that holds a hasher.
    fn live(&mut self, s: usize) -> usize {
        if self.at[s].is_none() {
            let l: Vec<usize> = (0..self.at.len()).filter(|i| self.at[*i].is_some()).collect();
            if !l.is_empty() {
                return *self.r.pick(&l);
            }
        }
        s
    }

    fn crash(&mut self, s: usize, d: usize) {
        let mut d = d;
        if self.ck[d].is_none() {
            let l: Vec<usize> = (0..self.ck.len()).filter(|i| self.ck[*i].is_some()).collect();
            if l.is_empty() {
                if self.r.pct(80) {
                    return self.ckpt(s, d);
                }
            } else if self.r.pct(95) {
                d = *self.r.pick(&l);
            }
        }
        let side = self.r.below(4) << 8 | self.r.below(256) << 10;
        self.sc.push("crash", &[s as u64, d as u64 + side]);
        self.at[s] = self.ck[d];
    }

    fn steps(&mut self, lo: u64, hi: u64) -> u64 {
        let hi = if self.thorough && self.r.pct(10) { hi * 4 } else { hi };
        let a = self.r.range(lo, hi);
        let b = self.r.range(lo, hi);
        a.min(b)
    }

    fn vast(&mut self, prop: &str) {
        let top = if self.thorough { 27 } else { 25 };
        let v = match prop {
            "C04" | "C05" => Variant::from(self.r.below(2)),
            _ => Variant::from(self.r.next()),
        };
        let (b, row) = (v.block() as u64, v.row() as u64);
        let unit = 1u64 << *self.r.pick(&[16, 16, 17, 18, 19, 20, 20, 21, 22, 23, 24, 24, top]);
        let k = if unit < 1 << 20 { 1 + self.r.below(7) } else { 1 };
        let d = *self.r.pick(&[0, 0, 1, 2, b - 1, b, b + 1, row - 1, row, row + 1, 2 * row, 4096]);
        let len = if self.r.pct(60) { unit * k + d } else { (unit * k).saturating_sub(d) };
        let how = match prop {
            "C04" => *self.r.pick(&[2, 6]),
            "C05" => 4,
            "C15" => *self.r.pick(&[1, 5]),
            _ => self.r.below(7),
        };
        let pre = *self.r.pick(&[0, 0, 1, b, b + 1, row, 2 * row, 2 * row + 1]);
        let (p, m, cpu, al) = (self.r.next() >> 16, self.mask(), self.r.below(3), self.align());
        self.sc.push("vast", &[v.idx(), p, m, cpu, how, pre, len, al]);
    }

    fn wide(&mut self, prop: &str) {
        let n = match self.r.below(30) {
            0 => 65530 + self.r.below(20),
            1 if self.thorough => 131070 + self.r.below(10),
            2 | 3 => 4090 + self.r.below(20),
            4..=7 => 1020 + self.r.below(20),
            8..=12 => 500 + self.r.below(40),
            13..=20 => 250 + self.r.below(20),
            21..=24 => 120 + self.r.below(20),
            _ => self.r.range(18, 600),
        };
        let kind = match prop {
            "C04" => 0,
            "C05" => 1,
            _ => self.r.below(2),
        };
        let gap = self.r.below(n + 1);
        let lie = if self.r.pct(6) { self.r.below(8) } else { 0 };
        let flags = self.r.below(2) | (self.r.pct(10) as u64) << 1 | lie << 2 | gap << 8;
        let (at, pk) = if prop == "C06" {
            (
                if self.r.pct(30) { n.saturating_sub(self.r.below(5)).max(1) } else { 1 + self.r.below(n) },
                self.r.below(2) * 2,
            )
        } else {
            (0, 0)
        };
        let (fam, seed) = (self.r.below(2), self.r.next() >> 16);
        self.sc.push("wide", &[fam, kind, n, seed, flags, at, pk]);
    }

    fn streams(&mut self) {
        let n = self.r.range(1, 4) as usize;
        for s in 0..n {
            let v = Variant::from(self.r.next());
            self.open(s, v);
        }
        for _ in 0..self.steps(1, 30) {
            let s = self.r.below(n as u64) as usize;
            self.feed(s);
            if self.r.pct(4) {
                self.sc.push("snap", &[s as u64, 0]);
            }
        }
        if self.r.pct(20) {
            self.one();
        }
    }

    fn one(&mut self) {
        let v = Variant::from(self.r.next());
        let (p, m, cpu, route) =
            (self.r.next() >> 16, self.mask(), self.r.below(3), self.r.below(4) | self.route() << 2);
        let len = if self.r.below(100) == 0 { self.big_len() } else { self.len(v, 0) };
        let al = self.align();
        self.sc.push("one", &[v.idx(), p, m, cpu, route, len, al]);
    }

    /// Which boundary a fast-forward goes to (jump_bytes in world.rs).
    fn which_jump(&mut self) -> u64 {
        if self.r.pct(70) {
            self.r.below(4)
        } else {
            4 + self.r.below(120)
        }
    }

    fn accounting(&mut self) {
        match self.r.below(10) {
            0..=5 => {
                let n = self.r.range(1, 3) as usize;
                for s in 0..n {
                    let v = Variant::from(self.r.next());
                    self.open(s, v);
                    if self.r.pct(60) {
                        let (back, which) = (self.r.below(6), self.which_jump());
                        self.sc.push("jump", &[s as u64, back, which]);
                    }
                }
                for _ in 0..self.steps(2, 25) {
                    let s = self.r.below(n as u64) as usize;
                    match self.r.below(20) {
                        0 | 1 => self.sc.push("resume", &[s as u64]),
                        2 => self.sc.push("snap", &[s as u64, 0]),
                        3 => self.ckpt(s, s),
                        4 => self.crash(s, s),
                        5 => self.writer(s),
                        _ => self.feed(s),
                    }
                }
            }
            6..=7 => {
                // Batched updates across the boundary.
                let fam = self.r.below(2);
                let n = self.r.range(1, 12) as usize;
                for s in 0..n {
                    self.open(s, if fam == 0 { Variant::B } else { Variant::S });
                    if self.r.pct(70) {
                        let (back, which) = (self.r.below(6), self.which_jump());
                        self.sc.push("jump", &[s as u64, back, which]);
                    }
                }
                for _ in 0..self.steps(1, 6) {
                    self.update_batch(fam, n, 0);
                    if self.r.pct(30) {
                        let s = self.r.below(n as u64);
                        self.sc.push("resume", &[s]);
                        self.feed(s as usize);
                    }
                }
            }
            _ => {
                let fam = self.r.below(2);
                let n = self.r.range(1, 12);
                for j in 0..n {
                    self.job(j, fam);
                    if self.r.pct(70) {
                        let (back, which) = (self.r.below(6), self.which_jump());
                        self.sc.push("hjump", &[j, back, which]);
                    }
                }
                self.hash_batch(fam, n, 0);
            }
        }
    }

    fn snapshots(&mut self) {
        let n = self.r.range(1, 3) as usize;
        for s in 0..n {
            let v = Variant::from(self.r.next());
            self.open(s, v);
        }
        let max = 6u64;
        for _ in 0..self.steps(3, 30) {
            let s = self.r.below(max) as usize;
            let s = if self.r.pct(85) { self.live(s) } else { s };
            let d = self.r.below(max);
            match self.r.below(24) {
                0..=3 => {
                    let k = self.r.below(3);
                    self.sc.push("snap", &[s as u64, k]);
                }
                4..=6 => {
                    let side = self.r.below(4) << 8;
                    self.sc.push("clone", &[s as u64, d + side]);
                    if d as usize != s {
                        self.at[d as usize] = self.at[s];
                    }
                }
                7 => {
                    self.sc.push("drop", &[s as u64]);
                    self.at[s] = None;
                }
                8 => {
                    let side = self.r.below(2);
                    self.sc.push("move", &[s as u64, side]);
                }
                9..=10 => {
                    let f = self.r.below(2);
                    self.sc.push("last", &[s as u64, f]);
                }
                11..=12 => self.ckpt(s, d as usize),
                13..=14 => self.crash(s, d as usize),
                15 => self.sc.push("resume", &[s as u64]),
                _ => self.feed(s),
            }
        }
    }

    fn update_batch(&mut self, fam: u64, n: usize, faults: u64) {
        let mut order: Vec<u64> = (0..n as u64).collect();
        for i in (1..order.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
        let k = if self.r.pct(50) { n as u64 } else { self.r.range(0, n as u64) };
        order.truncate(k as usize);
        let mut flags = 0;
        if self.r.pct(30) {
            flags |= 1;
        }
        if self.r.pct(12) {
            flags |= 2;
        }
        if self.r.pct(6) {
            flags |= 4;
        }
        if self.r.pct(6) {
            flags |= 8;
        }
        if self.r.pct(50) {
            flags |= 16;
        }
        if self.r.pct(6) {
            flags |= self.r.below(8) << 5;
        }
        let gap = self.r.below(k + 1);
        let (pa, pk) = if self.r.below(100) < faults {
            (1 + self.r.below(k + 1), *self.r.pick(&[0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5]))
        } else {
            (0, 0)
        };
        let mut args = vec![fam, flags, gap, pa, pk];
        // In some batches all lengths are equal, in some a few are long.
        let style = self.r.below(4);
        let v = if fam == 0 { Variant::B } else { Variant::S };
        let same = self.len(v, 0);
        for s in order {
            let n = self.at[s as usize].map_or(0, |a| a.n);
            let len = match style {
                0 => same,
                1 if self.r.pct(75) => self.r.below(3),
                _ => self.len(v, n),
            };
            let len = if self.r.below(2000) == 0 { self.big_len() } else { len };
            args.extend_from_slice(&[s, len, self.align()]);
            if let Some(a) = &mut self.at[s as usize] {
                a.n += len;
            }
        }
        self.sc.push("ub", &args);
    }

    fn batch_size(&mut self) -> usize {
        match self.r.below(6) {
            0 => self.r.range(1, 3) as usize,
            1 | 2 => self.r.range(3, 9) as usize,
            3 | 4 => self.r.range(1, 17) as usize,
            _ => self.r.range(1, 40) as usize,
        }
    }

    fn batches(&mut self, faults: bool) {
        let fam = self.r.below(2);
        let v = if fam == 0 { Variant::B } else { Variant::S };
        let n = self.batch_size();
        for s in 0..n {
            self.open(s, v);
            if self.r.pct(30) {
                self.feed(s);
            }
        }
        for _ in 0..self.steps(1, 7) {
            self.update_batch(fam, n, if faults { 70 } else { 0 });
            let s = self.r.below(n as u64) as usize;
            match self.r.below(12) {
                0..=3 => self.feed(s),
                4 => self.sc.push("snap", &[s as u64, 0]),
                5 => {
                    let f = self.r.below(2);
                    self.sc.push("last", &[s as u64, f]);
                }
                6 => {
                    let d = n as u64 + self.r.below(4);
                    self.sc.push("clone", &[s as u64, d]);
                    self.at[d as usize] = self.at[s];
                }
                7 => {
                    let f = self.r.below(2);
                    self.open(s, v);
                    self.sc.push("last", &[s as u64, f]);
                }
                _ => {}
            }
        }
    }

    fn job(&mut self, j: u64, fam: u64) {
        let v = if fam == 0 { Variant::B } else { Variant::S };
        let (p, m, cpu) = (self.r.next() >> 16, self.mask(), self.r.below(3));
        let len = if self.r.below(800) == 0 {
            self.big_len()
        } else if self.r.pct(15) {
            0
        } else {
            self.len(v, 0)
        };
        let (al, route) = (self.align(), self.r.below(4) | self.route() << 2);
        self.sc.push("hj", &[j, fam, p, m, cpu, len, al, route]);
        if self.r.pct(3) {
            let (back, which) = (self.r.below(6), self.which_jump());
            self.sc.push("hjump", &[j, back, which]);
        }
    }

    fn hash_batch(&mut self, fam: u64, n: u64, faults: u64) {
        let mut order: Vec<u64> = (0..n).collect();
        for i in (1..order.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
        let k = if self.r.pct(50) { n } else { self.r.range(0, n) };
        order.truncate(k as usize);
        let mut flags = 0;
        if self.r.pct(30) {
            flags |= 1;
        }
        if self.r.pct(12) {
            flags |= 2;
        }
        if self.r.pct(8) {
            flags |= 4;
        }
        if self.r.pct(6) {
            flags |= self.r.below(8) << 5;
        }
        let gap = self.r.below(k + 1);
        let (pa, pk) = if self.r.below(100) < faults {
            (1 + self.r.below(k + 1), *self.r.pick(&[0, 0, 0, 0, 0, 2, 4, 5]))
        } else {
            (0, 0)
        };
        let mut args = vec![fam, flags, gap, pa, pk];
        args.extend(order);
        self.sc.push("hb", &args);
    }

    fn jobs(&mut self, faults: bool) {
        let fam = self.r.below(2);
        let n = self.batch_size() as u64;
        for j in 0..n {
            self.job(j, fam);
        }
        for _ in 0..self.steps(1, 5) {
            self.hash_batch(fam, n, if faults { 75 } else { 0 });
            let j = self.r.below(n);
            match self.r.below(10) {
                0 | 1 => self.job(j, fam),
                2 => {
                    let d = self.r.below(n + 4);
                    let onto = self.r.below(2) << 9;
                    self.sc.push("hcl", &[j, d + onto]);
                }
                3 => self.sc.push("hc", &[j]),
                _ => {}
            }
        }
    }

    fn writer(&mut self, s: usize) {
        if let Some(a) = self.at[s] {
            let how = self.r.below(15);
            let cap = match self.r.below(4) {
                0 => self.r.below(4),
                1 => self.r.below(300),
                2 => *self.r.pick(&[64, 128, 512, 1024, 4096]),
                _ => self.r.below(5000),
            };
            let len = match self.r.below(8) {
                0 => self.r.below(20_000),
                1 => self.big_len(),
                _ => self.len(a.v, a.n),
            };
            let mut args = vec![s as u64, how, cap, len];
            for _ in 0..self.r.below(12) {
                let kind = if self.r.pct(60) { 0 } else { self.r.below(8) };
                let k = self.len(a.v, a.n);
                args.push(k << 3 | kind);
            }
            self.sc.push("copy", &args);
            self.at[s].as_mut().unwrap().n += len;
        }
    }

    fn writers(&mut self) {
        let n = self.r.range(1, 3) as usize;
        for s in 0..n {
            let v = Variant::from(self.r.next());
            let mask = self.mask();
            let text = (self.r.pct(40) as u64) * 4;
            self.open_with(s, v, mask, text);
        }
        for _ in 0..self.steps(1, 14) {
            let s = self.r.below(n as u64) as usize;
            match self.r.below(12) {
                0 => self.feed(s),
                1 => self.sc.push("snap", &[s as u64, 1]),
                2 => self.sc.push("resume", &[s as u64]),
                _ => self.writer(s),
            }
        }
    }

    /// A mixture of all features.
    fn everything(&mut self) {
        let fam = self.r.below(2);
        let n = self.r.range(1, 10) as usize;
        let batchy = self.r.pct(60);
        for s in 0..n {
            let v = if batchy && self.r.pct(85) {
                if fam == 0 {
                    Variant::B
                } else {
                    Variant::S
                }
            } else {
                Variant::from(self.r.next())
            };
            self.open(s, v);
            if self.r.pct(8) {
                let (back, which) = (self.r.below(6), self.which_jump());
                self.sc.push("jump", &[s as u64, back, which]);
            }
        }
        let jobs = if self.r.pct(50) { self.r.range(1, 14) } else { 0 };
        for j in 0..jobs {
            self.job(j, fam);
            if self.r.pct(8) {
                let back = self.r.below(6);
                self.sc.push("hjump", &[j, back, 0]);
            }
        }
        for _ in 0..self.steps(2, 18) {
            let s = self.r.below(n as u64) as usize;
            match self.r.below(24) {
                0..=5 => self.feed(s),
                6..=9 if batchy => self.update_batch(fam, n, 0),
                10 | 11 if jobs > 0 => self.hash_batch(fam, jobs, 0),
                12 if jobs > 0 => {
                    let j = self.r.below(jobs);
                    self.job(j, fam);
                }
                13 => self.sc.push("snap", &[s as u64, 1]),
                14 => {
                    let d = self.r.below(n as u64 + 3);
                    self.sc.push("clone", &[s as u64, d]);
                    if d as usize != s {
                        self.at[d as usize] = self.at[s];
                    }
                }
                15 => {
                    let side = self.r.below(2);
                    self.sc.push("move", &[s as u64, side]);
                }
                16 => {
                    let f = self.r.below(2);
                    self.sc.push("last", &[s as u64, f]);
                }
                17 => self.one(),
                18 => {
                    let c = self.r.below(3);
                    self.sc.push("deg", &[c]);
                }
                19 => self.ckpt(s, s),
                20 => self.crash(s, s),
                _ => self.feed(s),
            }
        }
    }

    fn tree(&mut self) {
        crate::tree::generate(&mut self.r, &mut self.sc, self.thorough);
    }
}
