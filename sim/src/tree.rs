//! C13: a cluster of workers computes a tree hash. Each node of the tree is
//! hashed by some worker; workers have different CPUs, lose their state, start
//! again from a snapshot or from nothing, receive leaf data in any order and
//! learn late which node is the last of its level.

use crate::guard::Buf;
use crate::model::{hex, Model, Spec, Variant};
use crate::rng::{fill_content, mix, Rng};
use crate::scenario::{Op, Scenario};
use crate::stats::Stats;
use crate::sut::{self, FamB, FamS, Family, Hasher};
use crate::world::{class, violation, Res, LAST_PANIC};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Node {
    /// True parameters, with the true last-node flag.
    spec: Spec,
    /// Indices of the children, or none for a leaf.
    children: Vec<usize>,
    input: Vec<u8>,
    expected: Vec<u8>,
    /// The live hasher and how much it has absorbed.
    live: Option<(Hasher, usize)>,
    snapshot: Option<(Hasher, usize)>,
    cpu: u64,
    result: Option<Vec<u8>>,
}

struct Tree {
    v: Variant,
    nodes: Vec<Node>,
    total: Vec<u8>,
    builtin: bool,
    late: bool,
    log: u64,
}

const MAX_NODES: usize = 48;

fn build(sc: &Scenario) -> Tree {
    let v = if sc.get("fam") & 1 == 0 { Variant::B } else { Variant::S };
    let builtin = sc.get("builtin") & 1 == 1;
    let lanes = if v.big() { 4 } else { 8 };
    let len = sc.get("length").min(1 << 18) as usize;
    let mut total = vec![0; len];
    fill_content(mix(sc.get("pseed")), 0, &mut total);
    let mut nodes: Vec<Node> = vec![];
    let node = |spec: Spec, children: Vec<usize>, input: Vec<u8>| Node {
        spec,
        children,
        input,
        expected: vec![],
        live: None,
        snapshot: None,
        cpu: 0,
        result: None,
    };
    if builtin {
        let base = Spec { fanout: lanes as u8, max_depth: 2, inner_hash_length: v.out(), ..Spec::new(v) };
        let mut inputs = vec![vec![]; lanes];
        for (i, c) in total.chunks(v.block()).enumerate() {
            inputs[i % lanes].extend_from_slice(c);
        }
        for (i, input) in inputs.into_iter().enumerate() {
            let spec = Spec { node_offset: i as u64, last_node: i == lanes - 1, ..base.clone() };
            nodes.push(node(spec, vec![], input));
        }
        let spec = Spec { node_depth: 1, last_node: true, ..base };
        nodes.push(node(spec, (0..lanes).collect(), vec![]));
    } else {
        let p = crate::world::make_spec(v, sc.get("pseed"), sc.get("mask") & 15);
        let leaf = sc.get("leaf").max(1).max(len.div_ceil(24) as u64) as usize;
        let fanout = sc.get("fanout").clamp(2, 200) as usize;
        let inner = 1 + (sc.get("inner") as usize) % v.out();
        let chunks: Vec<Vec<u8>> =
            if len == 0 { vec![vec![]] } else { total.chunks(leaf).map(|c| c.to_vec()).collect() };
        let mut depth = 0;
        let mut level: Vec<usize> = vec![];
        let base = Spec {
            fanout: fanout as u8,
            max_leaf_length: leaf as u32,
            inner_hash_length: inner,
            hash_length: inner,
            last_node: false,
            ..p.clone()
        };
        let n = chunks.len();
        for (i, c) in chunks.into_iter().enumerate() {
            let spec = Spec { node_offset: i as u64, last_node: i == n - 1, ..base.clone() };
            level.push(nodes.len());
            nodes.push(node(spec, vec![], c));
        }
        while level.len() > 1 {
            depth += 1;
            let mut next = vec![];
            let groups: Vec<Vec<usize>> = level.chunks(fanout).map(|c| c.to_vec()).collect();
            let n = groups.len();
            for (i, g) in groups.into_iter().enumerate() {
                let spec = Spec { node_offset: i as u64, node_depth: depth, last_node: i == n - 1, ..base.clone() };
                next.push(nodes.len());
                nodes.push(node(spec, g, vec![]));
            }
            level = next;
        }
        // The tree may be a far part of a larger one.
        let top = if v.big() { u64::MAX } else { (1 << 48) - 1 };
        let base = sc.get("base") & top;
        let up = (sc.get("up") % 250) as u8;
        for x in &mut nodes {
            x.spec.max_depth = (depth + 1).max(2).saturating_add(up);
            x.spec.node_depth = x.spec.node_depth.saturating_add(up);
            x.spec.node_offset = x.spec.node_offset.wrapping_add(base) & top;
            if sc.get("mll") != 0 {
                x.spec.max_leaf_length = (sc.get("mll") - 1) as u32;
            }
            // Parameters that name another shape are hashed as they stand.
            if sc.get("named") != 0 {
                let n = sc.get("named");
                x.spec.fanout = n as u8;
                x.spec.max_depth = ((n >> 8) as u8).max(1);
                x.spec.inner_hash_length = ((n >> 16) as usize) % (v.out() + 1);
            }
        }
        nodes.last_mut().unwrap().spec.hash_length = p.hash_length;
    }
    for i in 0..nodes.len() {
        let mut input = nodes[i].input.clone();
        for c in nodes[i].children.clone() {
            input.extend_from_slice(&nodes[c].expected.clone());
        }
        nodes[i].expected = Model::hash(&nodes[i].spec, &input);
        nodes[i].cpu = (sc.get("cpus") >> (2 * (i % 30))) % 3;
    }
    Tree { v, nodes, total, builtin, late: sc.get("late") & 1 == 1, log: 0 }
}

impl Tree {
    /// The input of node i, once its children are done.
    fn ready(&mut self, i: usize) -> bool {
        if self.nodes[i].result.is_some() {
            return false;
        }
        if !self.nodes[i].children.is_empty() && self.nodes[i].input.is_empty() {
            let mut all = vec![];
            for c in self.nodes[i].children.clone() {
                match &self.nodes[c].result {
                    Some(r) => all.extend_from_slice(r),
                    None => return false,
                }
            }
            self.nodes[i].input = all;
        }
        true
    }

    fn start(&mut self, i: usize) {
        let late = self.late;
        let x = &mut self.nodes[i];
        if x.live.is_none() {
            x.live = match &x.snapshot {
                Some((h, n)) => Some((h.dup(None), *n)),
                None => {
                    let spec = Spec { last_node: x.spec.last_node && !late, ..x.spec.clone() };
                    Some((Hasher::new(&spec, x.cpu, 0, None), 0))
                }
            };
        }
    }

    fn feed(&mut self, i: usize, len: usize, align: u64) -> u64 {
        if !self.ready(i) {
            return 0;
        }
        self.start(i);
        let x = &mut self.nodes[i];
        let (h, at) = x.live.as_mut().unwrap();
        let n = len.min(x.input.len() - *at);
        let mut b = Buf::new(n, align, false);
        b.bytes_mut().copy_from_slice(&x.input[*at..*at + n]);
        h.update(b.bytes());
        b.reclaim();
        *at += n;
        n as u64
    }

    fn batch<F: Family>(&mut self, items: &[(usize, usize)]) {
        let mut used = vec![];
        let mut ptrs: Vec<(*mut F::State, Vec<u8>)> = vec![];
        for (i, len) in items {
            if used.contains(i) || !self.ready(*i) {
                continue;
            }
            used.push(*i);
            self.start(*i);
            let x = &mut self.nodes[*i];
            let (h, at) = x.live.as_mut().unwrap();
            let n = (*len).min(x.input.len() - *at);
            let data = x.input[*at..*at + n].to_vec();
            *at += n;
            ptrs.push((F::state(h).unwrap(), data));
        }
        F::update_many(ptrs.iter().map(|(p, d)| (unsafe { &mut **p }, d)));
    }

    fn finish(&mut self, i: usize, k: usize) -> Res<bool> {
        if !self.ready(i) {
            return Ok(false);
        }
        self.feed(i, usize::MAX, 0);
        let x = &mut self.nodes[i];
        let (h, _) = x.live.as_mut().unwrap();
        h.set_last_node(x.spec.last_node);
        let d = h.digest();
        self.settle(i, d, k)?;
        Ok(true)
    }

    fn settle(&mut self, i: usize, d: Vec<u8>, k: usize) -> Res<()> {
        for b in &d {
            self.log = mix(self.log ^ *b as u64);
        }
        let x = &mut self.nodes[i];
        if d != x.expected {
            return violation(
                "digest",
                format!(
                    "step {}: node {} (depth {}, offset {}, last {}) of the {} tree: digest {} but the specification gives {}",
                    k,
                    i,
                    x.spec.node_depth,
                    x.spec.node_offset,
                    x.spec.last_node,
                    self.v.name(),
                    hex(&d),
                    hex(&x.expected)
                ),
            );
        }
        x.result = Some(d);
        x.live = None;
        x.snapshot = None;
        Ok(())
    }

    fn jobs<F: Family>(&mut self, items: &[usize], k: usize) -> Res<()> {
        let mut ids = vec![];
        for i in items {
            if !ids.contains(i) && self.ready(*i) {
                ids.push(*i);
            }
        }
        let mut jobs: Vec<F::Job> = ids
            .iter()
            .map(|i| {
                let x = &self.nodes[*i];
                let st: &'static [u8] = unsafe { std::slice::from_raw_parts(x.input.as_ptr(), x.input.len()) };
                F::job(&x.spec, x.cpu, 0, st)
            })
            .collect();
        F::hash_many(jobs.iter_mut());
        for (i, j) in ids.iter().zip(&jobs) {
            self.settle(*i, F::job_digest(j), k)?;
        }
        Ok(())
    }
}

pub fn run(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    match catch_unwind(AssertUnwindSafe(|| run_inner(sc, verbose, stats))) {
        Ok(r) => {
            stats.end_run();
            r
        }
        Err(_) => {
            stats.end_run();
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            violation("panic", msg.replace('\n', " "))
        }
    }
}

fn run_inner(sc: &Scenario, verbose: bool, stats: &mut Stats) -> Res<u64> {
    let mut t = build(sc);
    let n = t.nodes.len();
    let fam_b = t.v.big();
    stats.step(100 << 32 | (t.builtin as u64) << 20 | n as u64 | class(t.total.len() as u64, t.v) << 8);
    let arg = |op: &Op, i: usize| op.args.get(i).copied().unwrap_or(0);
    for (k, op) in sc.ops.iter().enumerate() {
        if verbose {
            println!("{} {:?}", op.name, op.args);
        }
        let i = arg(op, 0) as usize % n;
        let name = op.name.as_str();
        stats.step(101 << 32 | name.as_bytes()[0] as u64 | (i as u64) << 8 | (t.nodes[i].cpu) << 16);
        match name {
            "feed" => {
                let fed = t.feed(i, arg(op, 1).min(1 << 20) as usize, arg(op, 2));
                stats.add("bytes hashed", fed);
                stats.hit("node segments");
            }
            "batch" => {
                let items: Vec<(usize, usize)> = op
                    .args
                    .chunks(2)
                    .filter(|c| c.len() == 2)
                    .map(|c| (c[0] as usize % n, c[1].min(1 << 20) as usize))
                    .collect();
                if fam_b {
                    t.batch::<FamB>(&items)
                } else {
                    t.batch::<FamS>(&items)
                }
                stats.hit("node batches");
            }
            "jobs" => {
                let items: Vec<usize> = op.args.iter().map(|a| *a as usize % n).collect();
                if fam_b {
                    t.jobs::<FamB>(&items, k)?
                } else {
                    t.jobs::<FamS>(&items, k)?
                }
                stats.hit("leaves hashed as jobs");
            }
            "last" => {
                // A decision, possibly revised later.
                if let Some((h, _)) = &mut t.nodes[i].live {
                    h.set_last_node(arg(op, 1) & 1 == 1);
                    stats.hit("late or revised last-node decisions");
                }
            }
            "ckpt" => {
                let x = &mut t.nodes[i];
                if let Some((h, at)) = &x.live {
                    x.snapshot = Some((h.dup(None), *at));
                    stats.hit("checkpoints");
                }
            }
            "crash" => {
                let x = &mut t.nodes[i];
                x.cpu = arg(op, 1) % 3;
                if x.live.take().is_some() {
                    stats.hit("fault: worker crash, node redone");
                }
                if arg(op, 2) & 1 == 1 {
                    x.snapshot = None;
                }
            }
            "crashw" => {
                // One machine with all its nodes.
                for j in 0..n {
                    if j % 3 == i % 3 {
                        t.nodes[j].cpu = arg(op, 1) % 3;
                        if t.nodes[j].live.take().is_some() {
                            stats.hit("fault: worker crash, node redone");
                        }
                    }
                }
            }
            "finish" => {
                if t.finish(i, k)? {
                    stats.hit("nodes finished early");
                }
            }
            _ => {}
        }
    }
    for i in 0..n {
        if t.nodes[i].result.is_none() {
            t.finish(i, sc.ops.len())?;
        }
    }
    let root = t.nodes.last().unwrap().result.clone().unwrap();
    if t.builtin {
        let p = if fam_b { Variant::Bp } else { Variant::Sp };
        let got = sut::one_shot(&Spec::new(p), sc.get("cpus") % 3, 0, &t.total);
        let mut h = Hasher::new(&Spec::new(p), sc.get("cpus") / 3 % 3, 0, None);
        let cut = sc.get("pseed") as usize % (t.total.len() + 1);
        h.update(&t.total[..cut]);
        h.update(&t.total[cut..]);
        stats.hit("comparisons with the built-in parallel function");
        for d in [got, h.digest()] {
            if d != root {
                return violation(
                    "builtin",
                    format!("{} of {} bytes is {} but the tree gives {}", p.name(), t.total.len(), hex(&d), hex(&root)),
                );
            }
        }
    } else {
        stats.hit("general trees");
    }
    if verbose {
        println!("root {}", hex(&root));
    }
    Ok(t.log)
}

pub fn generate(r: &mut Rng, sc: &mut Scenario, thorough: bool) {
    let fam = r.below(2);
    let builtin = r.pct(50) as u64;
    let block = if fam == 0 { 128 } else { 64 };
    let lanes = 4 << fam;
    let row = block * lanes;
    let length = match r.below(6) {
        0 => r.below(3),
        1 => r.below(2 * row),
        2 => r.below(6) * row + *r.pick(&[0, 1, block - 1, block, block + 1, row - 1]),
        3 => r.below(40) * block + *r.pick(&[0, 1, block - 1]),
        4 if thorough => r.below(200_000),
        _ => r.below(10 * row),
    };
    sc.set("fam", fam);
    sc.set("builtin", builtin);
    sc.set("length", length);
    sc.set("pseed", r.next() >> 16);
    sc.set("mask", r.below(16));
    sc.set("cpus", r.next());
    sc.set("late", r.below(2));
    sc.set("leaf", *r.pick(&[1, block, 2 * block, block + 1, 1000, 4096]));
    sc.set("fanout", *r.pick(&[2, 2, 3, 4, 8, 200]));
    sc.set("inner", r.below(64));
    if r.pct(40) {
        let any = r.next();
        let top = if fam == 0 { u64::MAX } else { (1 << 48) - 1 };
        let k = r.below(40);
        sc.set(
            "base",
            *r.pick(&[250, 65530, (1 << 32) - 4, 1 << 32, 1 << 40, any & top, top - k, (1 << 47) - 2]) & top,
        );
    }
    if r.pct(20) {
        sc.set("up", *r.pick(&[1, 100, 126, 127, 128, 249]));
    }
    if r.pct(25) {
        let (a, b) = (r.below(256), r.below(256));
        let f = *r.pick(&[0, 0, 1, 2, 255, a]);
        let d = *r.pick(&[1, 2, 3, 254, 255, b]);
        sc.set("named", f | d << 8 | r.below(256) << 16 | 1 << 24);
    }
    if r.pct(30) {
        let any = r.next() as u32 as u64;
        sc.set("mll", *r.pick(&[1, 256, 1 << 16, (1 << 24) + 1, 1 << 32, any + 1]));
    }
    let n = MAX_NODES as u64;
    let len = |r: &mut Rng| match r.below(4) {
        0 => r.below(3),
        1 => r.below(3) * block,
        2 => r.below(2 * row),
        _ => r.below(5) * block + *r.pick(&[1, block - 1]),
    };
    // Work on the nodes that exist mostly.
    let pick = |r: &mut Rng| if builtin == 1 { r.below(lanes + 1) } else { r.below(n) };
    for _ in 0..r.range(1, if thorough { 80 } else { 35 }) {
        let i = pick(r);
        match r.below(16) {
            0..=5 => {
                let l = len(r);
                let a = r.below(64);
                sc.push("feed", &[i, l, a]);
            }
            6 | 7 => {
                let mut args = vec![];
                for _ in 0..r.range(1, 9) {
                    args.push(pick(r));
                    args.push(len(r));
                }
                sc.push("batch", &args);
            }
            8 => {
                let f = r.below(2);
                sc.push("last", &[i, f]);
            }
            9 | 10 => sc.push("ckpt", &[i]),
            11 | 12 => {
                let (c, s) = (r.below(3), r.below(2));
                sc.push("crash", &[i, c, s]);
            }
            13 => {
                let c = r.below(3);
                sc.push("crashw", &[i, c]);
            }
            14 => {
                let args: Vec<u64> = (0..r.range(1, 6)).map(|_| pick(r)).collect();
                sc.push("jobs", &args);
            }
            _ => sc.push("finish", &[i]),
        }
    }
}
