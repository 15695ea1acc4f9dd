//! Reference models: BLAKE2b/BLAKE2s as written in RFC 7693 and the BLAKE2
//! paper, one block at a time, plus BLAKE2bp/BLAKE2sp as trees of them. Written
//! from the specification; shares no code with the crates under test.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Variant {
    B,
    S,
    Bp,
    Sp,
}

pub const VARIANTS: [Variant; 4] = [Variant::B, Variant::S, Variant::Bp, Variant::Sp];

impl Variant {
    pub fn from(n: u64) -> Variant {
        VARIANTS[(n % 4) as usize]
    }
    pub fn idx(self) -> u64 {
        match self {
            Variant::B => 0,
            Variant::S => 1,
            Variant::Bp => 2,
            Variant::Sp => 3,
        }
    }
    pub fn big(self) -> bool {
        matches!(self, Variant::B | Variant::Bp)
    }
    pub fn parallel(self) -> bool {
        matches!(self, Variant::Bp | Variant::Sp)
    }
    pub fn block(self) -> usize {
        if self.big() {
            128
        } else {
            64
        }
    }
    pub fn out(self) -> usize {
        self.block() / 2
    }
    pub fn lanes(self) -> usize {
        match self {
            Variant::B | Variant::S => 1,
            Variant::Bp => 4,
            Variant::Sp => 8,
        }
    }
    /// Bytes in one row of blocks across the lanes.
    pub fn row(self) -> usize {
        self.block() * self.lanes()
    }
    pub fn name(self) -> &'static str {
        match self {
            Variant::B => "b",
            Variant::S => "s",
            Variant::Bp => "bp",
            Variant::Sp => "sp",
        }
    }
}

/// All the parameters of a hasher.
#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub variant: Variant,
    pub hash_length: usize,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf_length: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_hash_length: usize,
    pub last_node: bool,
}

impl Spec {
    pub fn new(variant: Variant) -> Spec {
        Spec {
            variant,
            hash_length: variant.out(),
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            max_depth: 1,
            max_leaf_length: 0,
            node_offset: 0,
            node_depth: 0,
            inner_hash_length: 0,
            last_node: false,
        }
    }
}

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

macro_rules! core {
    ($name:ident, $word:ty, $wide:ty, $rounds:expr, $r1:expr, $r2:expr, $r3:expr, $r4:expr, $iv:expr) => {
        #[derive(Clone)]
        struct $name {
            h: [$word; 8],
            t: $wide,
            buf: Vec<u8>,
        }

        impl $name {
            const W: usize = std::mem::size_of::<$word>();
            const BLOCK: usize = 16 * Self::W;

            /// `block`: the parameter block of the specification.
            fn new(block: &[u8], key: &[u8]) -> Self {
                assert_eq!(block.len(), 8 * Self::W);
                let mut h: [$word; 8] = $iv;
                for i in 0..8 {
                    let mut w = [0u8; std::mem::size_of::<$word>()];
                    w.copy_from_slice(&block[i * Self::W..(i + 1) * Self::W]);
                    h[i] ^= <$word>::from_le_bytes(w);
                }
                let mut buf = Vec::with_capacity(Self::BLOCK);
                if !key.is_empty() {
                    buf.extend_from_slice(key);
                    buf.resize(Self::BLOCK, 0);
                }
                $name { h, t: 0, buf }
            }

            fn compress(&mut self, block: &[u8], last: bool, last_node: bool) {
                let iv: [$word; 8] = $iv;
                let mut m = [0 as $word; 16];
                for i in 0..16 {
                    let mut w = [0u8; std::mem::size_of::<$word>()];
                    w.copy_from_slice(&block[i * Self::W..(i + 1) * Self::W]);
                    m[i] = <$word>::from_le_bytes(w);
                }
                let mut v = [0 as $word; 16];
                v[..8].copy_from_slice(&self.h);
                v[8..].copy_from_slice(&iv);
                v[12] ^= self.t as $word;
                v[13] ^= (self.t >> (8 * Self::W)) as $word;
                if last {
                    v[14] = !v[14];
                    if last_node {
                        v[15] = !v[15];
                    }
                }
                for r in 0..$rounds {
                    let s = &SIGMA[r % 10];
                    let mut g = |a: usize, b: usize, c: usize, d: usize, x: $word, y: $word| {
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                        v[d] = (v[d] ^ v[a]).rotate_right($r1);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right($r2);
                        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                        v[d] = (v[d] ^ v[a]).rotate_right($r3);
                        v[c] = v[c].wrapping_add(v[d]);
                        v[b] = (v[b] ^ v[c]).rotate_right($r4);
                    };
                    g(0, 4, 8, 12, m[s[0]], m[s[1]]);
                    g(1, 5, 9, 13, m[s[2]], m[s[3]]);
                    g(2, 6, 10, 14, m[s[4]], m[s[5]]);
                    g(3, 7, 11, 15, m[s[6]], m[s[7]]);
                    g(0, 5, 10, 15, m[s[8]], m[s[9]]);
                    g(1, 6, 11, 12, m[s[10]], m[s[11]]);
                    g(2, 7, 8, 13, m[s[12]], m[s[13]]);
                    g(3, 4, 9, 14, m[s[14]], m[s[15]]);
                }
                for i in 0..8 {
                    self.h[i] ^= v[i] ^ v[i + 8];
                }
            }

            /// A full block stays pending until more input shows that it is
            /// not the last one.
            fn update(&mut self, mut input: &[u8]) {
                while !input.is_empty() {
                    if self.buf.len() == Self::BLOCK {
                        let b = std::mem::take(&mut self.buf);
                        self.t = self.t.wrapping_add(Self::BLOCK as $wide);
                        self.compress(&b, false, false);
                        self.buf = b;
                        self.buf.clear();
                    }
                    let n = input.len().min(Self::BLOCK - self.buf.len());
                    self.buf.extend_from_slice(&input[..n]);
                    input = &input[n..];
                }
            }

            fn finalize(&self, last_node: bool) -> Vec<u8> {
                let mut c = self.clone();
                c.t = c.t.wrapping_add(c.buf.len() as $wide);
                let mut b = c.buf.clone();
                b.resize(Self::BLOCK, 0);
                c.compress(&b, true, last_node);
                c.h.iter().flat_map(|w| w.to_le_bytes()).collect()
            }
        }
    };
}

core!(
    CoreB,
    u64,
    u128,
    12usize,
    32,
    24,
    16,
    63,
    [
        0x6a09e667f3bcc908,
        0xbb67ae8584caa73b,
        0x3c6ef372fe94f82b,
        0xa54ff53a5f1d36f1,
        0x510e527fade682d1,
        0x9b05688c2b3e6c1f,
        0x1f83d9abfb41bd6b,
        0x5be0cd19137e2179,
    ]
);
core!(
    CoreS,
    u32,
    u64,
    10usize,
    16,
    12,
    8,
    7,
    [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,]
);

#[derive(Clone)]
enum Core {
    B(CoreB),
    S(CoreS),
}

impl Core {
    fn new(s: &Spec, keyed_input: bool) -> Core {
        let key: &[u8] = if keyed_input { &s.key } else { &[] };
        if s.variant.big() {
            let mut p = vec![0u8; 64];
            p[0] = s.hash_length as u8;
            p[1] = s.key.len() as u8;
            p[2] = s.fanout;
            p[3] = s.max_depth;
            p[4..8].copy_from_slice(&s.max_leaf_length.to_le_bytes());
            p[8..16].copy_from_slice(&s.node_offset.to_le_bytes());
            p[16] = s.node_depth;
            p[17] = s.inner_hash_length as u8;
            p[32..32 + s.salt.len()].copy_from_slice(&s.salt);
            p[48..48 + s.personal.len()].copy_from_slice(&s.personal);
            Core::B(CoreB::new(&p, key))
        } else {
            let mut p = vec![0u8; 32];
            p[0] = s.hash_length as u8;
            p[1] = s.key.len() as u8;
            p[2] = s.fanout;
            p[3] = s.max_depth;
            p[4..8].copy_from_slice(&s.max_leaf_length.to_le_bytes());
            p[8..14].copy_from_slice(&s.node_offset.to_le_bytes()[..6]);
            p[14] = s.node_depth;
            p[15] = s.inner_hash_length as u8;
            p[16..16 + s.salt.len()].copy_from_slice(&s.salt);
            p[24..24 + s.personal.len()].copy_from_slice(&s.personal);
            Core::S(CoreS::new(&p, key))
        }
    }
    fn update(&mut self, input: &[u8]) {
        match self {
            Core::B(c) => c.update(input),
            Core::S(c) => c.update(input),
        }
    }
    fn skip(&mut self, bytes: u128) {
        match self {
            Core::B(c) => c.t = c.t.wrapping_add(bytes),
            Core::S(c) => c.t = c.t.wrapping_add(bytes as u64),
        }
    }
    fn finalize(&self, last_node: bool) -> Vec<u8> {
        match self {
            Core::B(c) => c.finalize(last_node),
            Core::S(c) => c.finalize(last_node),
        }
    }
}

/// Model of an incremental hasher.
#[derive(Clone)]
pub struct Model {
    pub variant: Variant,
    hash_length: usize,
    /// The node itself (b/s) or the leaves (bp/sp).
    nodes: Vec<Core>,
    root: Option<Core>,
    /// Input bytes dealt to the leaves so far.
    dealt: u64,
    last_node: bool,
    count: u128,
}

impl Model {
    pub fn new(s: &Spec) -> Model {
        let mut nodes = vec![];
        let mut root = None;
        if s.variant.parallel() {
            // bp/sp know only the digest length and the key.
            let base = Spec {
                hash_length: s.hash_length,
                key: s.key.clone(),
                fanout: s.variant.lanes() as u8,
                max_depth: 2,
                inner_hash_length: s.variant.out(),
                ..Spec::new(s.variant)
            };
            for i in 0..s.variant.lanes() {
                nodes.push(Core::new(&Spec { node_offset: i as u64, ..base.clone() }, true));
            }
            root = Some(Core::new(&Spec { node_depth: 1, ..base }, false));
        } else {
            nodes.push(Core::new(s, true));
        }
        Model {
            variant: s.variant,
            hash_length: s.hash_length,
            nodes,
            root,
            dealt: 0,
            last_node: s.last_node,
            count: 0,
        }
    }

    pub fn update(&mut self, mut input: &[u8]) {
        self.count = self.count.wrapping_add(input.len() as u128);
        if self.root.is_none() {
            return self.nodes[0].update(input);
        }
        let block = self.variant.block() as u64;
        while !input.is_empty() {
            let lane = (self.dealt / block) % self.variant.lanes() as u64;
            let n = (block - self.dealt % block).min(input.len() as u64);
            self.nodes[lane as usize].update(&input[..n as usize]);
            self.dealt += n;
            input = &input[n as usize..];
        }
    }

    /// Pretend that `bytes` more bytes (a multiple of the row) were absorbed
    /// without changing the chaining values. Only for fresh hashers.
    pub fn skip(&mut self, bytes: u128) {
        assert!(self.count == 0);
        self.count = self.count.wrapping_add(bytes);
        for n in &mut self.nodes {
            n.skip(bytes / self.variant.lanes() as u128);
        }
    }

    pub fn set_last_node(&mut self, v: bool) {
        self.last_node = v;
    }

    pub fn count(&self) -> u128 {
        self.count
    }

    pub fn digest(&self) -> Vec<u8> {
        let mut out = match &self.root {
            None => self.nodes[0].finalize(self.last_node),
            Some(root) => {
                let mut root = root.clone();
                for (i, n) in self.nodes.iter().enumerate() {
                    root.update(&n.finalize(i == self.nodes.len() - 1));
                }
                root.finalize(true)
            }
        };
        out.truncate(self.hash_length);
        out
    }

    pub fn hash(s: &Spec, input: &[u8]) -> Vec<u8> {
        let mut m = Model::new(s);
        m.update(input);
        m.digest()
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Check the models against published and independently computed values.
pub fn self_check() -> Result<(), String> {
    let ramp: Vec<u8> = (0..=254u8).collect();
    for line in include_str!("../kat.txt").lines() {
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.is_empty() || f[0].starts_with('#') {
            continue;
        }
        let num = |s: &str| s.parse::<u64>().unwrap();
        let unhex = |s: &str| -> Vec<u8> {
            if s == "-" {
                return vec![];
            }
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
        };
        let v = match f[0] {
            "b" => Variant::B,
            "s" => Variant::S,
            "bp" => Variant::Bp,
            _ => Variant::Sp,
        };
        let n = num(f[1]) as usize;
        let input: Vec<u8> = (0..n).map(|i| ramp[i % 255]).collect();
        let mut s = Spec::new(v);
        s.hash_length = num(f[2]) as usize;
        s.key = unhex(f[3]);
        s.salt = unhex(f[4]);
        s.personal = unhex(f[5]);
        s.fanout = num(f[6]) as u8;
        s.max_depth = num(f[7]) as u8;
        s.max_leaf_length = num(f[8]) as u32;
        s.node_offset = num(f[9]);
        s.node_depth = num(f[10]) as u8;
        s.inner_hash_length = num(f[11]) as usize;
        s.last_node = num(f[12]) == 1;
        if hex(&Model::hash(&s, &input)) != f[13] {
            return Err(format!("model self-check failed on: {}", line));
        }
        let mut m = Model::new(&s);
        for b in &input {
            m.update(&[*b]);
        }
        if hex(&m.digest()) != f[13] {
            return Err(format!("model self-check (bytewise) failed on: {}", line));
        }
    }
    Ok(())
}
