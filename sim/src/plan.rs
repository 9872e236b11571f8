//! A plan is everything one simulated run depends on besides the code: the
//! configuration (knobs), the operations of every actor, and the faults. It is
//! plain text, so that a replay file is a plan.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    /// stable under shrinking: entropy and faults refer to it
    pub id: u64,
    pub actor: u64,
    pub kind: String,
    pub args: Vec<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: String,
    pub args: Vec<u64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub profile: String,
    pub knobs: BTreeMap<String, u64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
}

impl Plan {
    pub fn knob(&self, k: &str) -> u64 {
        *self.knobs.get(k).unwrap_or_else(|| panic!("plan has no knob {k}"))
    }
    pub fn knob_or(&self, k: &str, d: u64) -> u64 {
        self.knobs.get(k).copied().unwrap_or(d)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.knobs.insert(k.to_string(), v);
    }
    pub fn op(&mut self, actor: u64, kind: &str, args: Vec<u64>) -> u64 {
        let id = self.ops.iter().map(|o| o.id + 1).max().unwrap_or(1);
        self.ops.push(Op { id, actor, kind: kind.to_string(), args });
        id
    }
    pub fn fault(&mut self, kind: &str, args: Vec<u64>) {
        self.faults.push(Fault { kind: kind.to_string(), args });
    }
    pub fn faults_of<'a>(&'a self, kind: &'a str, id: u64) -> impl Iterator<Item = &'a Fault> + 'a {
        self.faults.iter().filter(move |f| f.kind == kind && f.args.first() == Some(&id))
    }

    pub fn to_text(&self) -> String {
        let mut s = String::from("onion-sim plan 1\n");
        s += &format!("prop {}\nseed {}\nprofile {}\n", self.prop, self.seed, self.profile);
        for (k, v) in &self.knobs {
            s += &format!("knob {k} {v}\n");
        }
        let j = |a: &Vec<u64>| a.iter().map(|x| format!(" {x}")).collect::<String>();
        for o in &self.ops {
            s += &format!("op {} {} {}{}\n", o.id, o.actor, o.kind, j(&o.args));
        }
        for f in &self.faults {
            s += &format!("fault {}{}\n", f.kind, j(&f.args));
        }
        s += "end\n";
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        let mut ended = false;
        for line in text.lines() {
            if line.starts_with('#') || line.trim().is_empty() {
                continue;
            }
            let w: Vec<&str> = line.split_whitespace().collect();
            let num = |s: &str| s.parse::<u64>().map_err(|_| format!("bad number in: {line}"));
            match w[0] {
                "onion-sim" => {}
                "prop" => p.prop = w.get(1).ok_or("prop")?.to_string(),
                "seed" => p.seed = num(w.get(1).ok_or("seed")?)?,
                "profile" => p.profile = w.get(1).ok_or("profile")?.to_string(),
                "knob" if w.len() == 3 => {
                    p.knobs.insert(w[1].to_string(), num(w[2])?);
                }
                "op" if w.len() >= 4 => p.ops.push(Op {
                    id: num(w[1])?,
                    actor: num(w[2])?,
                    kind: w[3].to_string(),
                    args: w[4..].iter().map(|x| num(x)).collect::<Result<_, _>>()?,
                }),
                "fault" if w.len() >= 2 => p.faults.push(Fault {
                    kind: w[1].to_string(),
                    args: w[2..].iter().map(|x| num(x)).collect::<Result<_, _>>()?,
                }),
                "end" => {
                    ended = true;
                    break;
                }
                _ => return Err(format!("bad plan line: {line}")),
            }
        }
        if !ended {
            return Err("plan is truncated".into());
        }
        Ok(p)
    }
}
