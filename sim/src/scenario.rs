//! A scenario is the complete, explicit description of one simulated run: its
//! text form is the replay file. Arguments are interpreted modulo what is
//! meaningful, so that every subset of the steps is again a scenario.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub name: String,
    pub args: Vec<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, u64>,
    pub ops: Vec<Op>,
}

impl Scenario {
    pub fn new(prop: &str, seed: u64) -> Scenario {
        Scenario { prop: prop.to_string(), seed, ..Default::default() }
    }

    pub fn push(&mut self, name: &str, args: &[u64]) {
        self.ops.push(Op { name: name.to_string(), args: args.to_vec() });
    }

    pub fn get(&self, key: &str) -> u64 {
        self.cfg.get(key).copied().unwrap_or(0)
    }

    pub fn set(&mut self, key: &str, v: u64) {
        self.cfg.insert(key.to_string(), v);
    }

    pub fn text(&self) -> String {
        let mut s = format!("b2sim 1\nproperty {}\nseed {}\n", self.prop, self.seed);
        for (k, v) in &self.cfg {
            s += &format!("set {} {}\n", k, v);
        }
        for op in &self.ops {
            s += &op.name;
            for a in &op.args {
                s += &format!(" {}", a);
            }
            s += "\n";
        }
        s
    }

    pub fn parse(text: &str) -> Result<Scenario, String> {
        let mut s = Scenario::default();
        let num = |x: &str| x.parse::<u64>().map_err(|e| format!("{}: {}", x, e));
        for line in text.lines() {
            let f: Vec<&str> = line.split_whitespace().collect();
            if f.is_empty() || f[0].starts_with('#') {
                continue;
            }
            match f[0] {
                "b2sim" => {}
                "property" => s.prop = f[1].to_string(),
                "seed" => s.seed = num(f[1])?,
                "set" => {
                    s.cfg.insert(f[1].to_string(), num(f[2])?);
                }
                name => {
                    let args = f[1..].iter().map(|x| num(x)).collect::<Result<Vec<_>, _>>()?;
                    s.ops.push(Op { name: name.to_string(), args });
                }
            }
        }
        Ok(s)
    }
}
