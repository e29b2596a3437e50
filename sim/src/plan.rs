//! A run is a plan: configuration plus steps (operations with the faults injected into them).
//! Plans are what seeds generate, what is minimised, and what replay files contain.
use crate::ctx::{Fault, StoragePolicy};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    /// keyed insert: a=slot b=selector c=key mode
    Ins,
    Rem,
    Get,
    GetM,
    Ends,
    Clear,
    DropT,
    Forget,
    /// a=source b=destination
    Clone,
    Swap,
    /// bulk keyed insert / remove: b=count c=pattern
    Fill,
    Drain,
    Iter,
    IterM,
    Into,
    Visit,
    InsAt,
    RemAt,
    RepAt,
    Nav,
    Walk,
    Dot,
    /// keyed lookup done node by node: b=selector c=key mode
    NGet,
    // threaded runs: a=thread
    TGet,
    TEnds,
    TIter,
    TNav,
    TVisit,
    TClone,
    TWalk,
    /// exclusive phase on thread a: b=selector c=kind
    TWrite,
    /// owning iteration split between threads: a=first b=second
    THand,
    TBarrier,
    /// any call on a tree only thread a uses: b=seed
    TOwn,
    /// the ends of a node (addresses without item): b=selector c=which
    Edge,
    Unit,
    /// a copy is damaged and validated: b=seed c=kind
    Damage,
    /// single nodes are edited: b=seed
    NodeEd,
    Map,
    Cursor,
}
pub const OPS: &[(Op, &str)] = &[
    (Op::Ins, "insert"), (Op::Rem, "remove"), (Op::Get, "get"), (Op::GetM, "get_mut"),
    (Op::Ends, "ends"), (Op::Clear, "clear"), (Op::DropT, "drop_tree"), (Op::Forget, "forget"),
    (Op::Clone, "clone"), (Op::Swap, "swap"), (Op::Fill, "fill"), (Op::Drain, "drain"),
    (Op::Iter, "iter"), (Op::IterM, "iter_mut"), (Op::Into, "into_iter"), (Op::Visit, "visit"),
    (Op::InsAt, "insert_at"), (Op::RemAt, "remove_at"), (Op::RepAt, "replace_at"),
    (Op::Nav, "navigate"), (Op::Walk, "walk"), (Op::Dot, "dot"), (Op::NGet, "node_get"), (Op::TGet, "t_get"),
    (Op::TEnds, "t_ends"), (Op::TIter, "t_iter"), (Op::TNav, "t_nav"), (Op::TVisit, "t_visit"),
    (Op::TClone, "t_clone"), (Op::TWalk, "t_walk"), (Op::TWrite, "t_write"),
    (Op::THand, "t_handover"), (Op::TBarrier, "t_barrier"), (Op::TOwn, "t_own"),
    (Op::Edge, "node_end"), (Op::Unit, "zero_sized_items"), (Op::Damage, "damage"), (Op::NodeEd, "node_edits"),
    (Op::Map, "item_map"), (Op::Cursor, "cursors"),
];
impl Op {
    pub fn name(self) -> &'static str {
        OPS[self as usize].1
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Step {
    pub op: Op,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub fault: Fault,
    pub n: u32,
    pub script: Vec<u8>,
}

#[derive(Clone)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// "box" or "sim"
    pub storage: String,
    pub pad: u8,
    pub storage_seed: u64,
    pub policy: Option<StoragePolicy>,
    pub slots: usize,
    pub sched_seed: u64,
    pub switch_permille: u64,
    pub threads: usize,
    pub explicit: Option<Vec<(u64, usize)>>,
    pub build: String,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::from("btsim-plan 1\n");
        s += &format!("prop {}\nseed {}\nstorage {}\npad {}\nstorage_seed {}\nslots {}\nsched_seed {}\nswitch_permille {}\nthreads {}\nbuild {}\n",
            self.prop, self.seed, self.storage, self.pad, self.storage_seed, self.slots,
            self.sched_seed, self.switch_permille, self.threads, self.build);
        if let Some(p) = &self.policy {
            s += &format!("policy {} {} {} {} {}\n", p.reuse, p.reloc, p.dropper as u8, p.base, p.stride);
        }
        if let Some(x) = &self.explicit {
            let v: Vec<String> = x.iter().map(|(k, t)| format!("{k}:{t}")).collect();
            s += &format!("schedule {}\n", v.join(","));
        }
        for st in &self.steps {
            let hex: String = st.script.iter().map(|b| format!("{b:02x}")).collect();
            s += &format!(
                "step {} {} {} {} {} {} {}\n",
                st.op.name(), st.a, st.b, st.c, st.fault.name(), st.n,
                if hex.is_empty() { "-" } else { &hex }
            );
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut p = Plan {
            prop: String::new(), seed: 0, storage: "box".into(), pad: 0, storage_seed: 0,
            policy: None, slots: 1, sched_seed: 0, switch_permille: 0, threads: 0, explicit: None,
            build: "checked".into(), steps: vec![],
        };
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let f: Vec<&str> = line.split_whitespace().collect();
            let num = |i: usize| -> Result<i64, String> {
                f.get(i).ok_or(format!("short line: {line}"))?.parse().map_err(|e| format!("{e}: {line}"))
            };
            match f[0] {
                "btsim-plan" => (),
                "prop" => p.prop = f.get(1).unwrap_or(&"").to_string(),
                "seed" => p.seed = f[1].parse().map_err(|e| format!("{e}"))?,
                "storage" => p.storage = f[1].into(),
                "pad" => p.pad = num(1)? as u8,
                "storage_seed" => p.storage_seed = f[1].parse().map_err(|e| format!("{e}"))?,
                "slots" => p.slots = num(1)? as usize,
                "sched_seed" => p.sched_seed = f[1].parse().map_err(|e| format!("{e}"))?,
                "switch_permille" => p.switch_permille = num(1)? as u64,
                "threads" => p.threads = num(1)? as usize,
                "build" => p.build = f[1].into(),
                "policy" => {
                    p.policy = Some(StoragePolicy {
                        reuse: num(1)? as u8, reloc: num(2)? as u16, dropper: num(3)? != 0,
                        base: num(4)? as u32, stride: num(5)? as u32,
                    })
                }
                "schedule" => {
                    let mut v = vec![];
                    for x in f.get(1).unwrap_or(&"").split(',').filter(|x| !x.is_empty()) {
                        let (k, t) = x.split_once(':').ok_or("bad schedule")?;
                        v.push((k.parse().map_err(|_| "bad schedule")?, t.parse().map_err(|_| "bad schedule")?));
                    }
                    p.explicit = Some(v)
                }
                "step" => {
                    if f.len() < 8 {
                        return Err(format!("short step: {line}"));
                    }
                    let op = OPS.iter().find(|x| x.1 == f[1]).ok_or(format!("unknown op {}", f[1]))?.0;
                    let script = if f[7] == "-" {
                        vec![]
                    } else {
                        (0..f[7].len() / 2)
                            .map(|i| u8::from_str_radix(&f[7][2 * i..2 * i + 2], 16).map_err(|e| e.to_string()))
                            .collect::<Result<_, _>>()?
                    };
                    p.steps.push(Step {
                        op, a: num(2)?, b: num(3)?, c: num(4)?,
                        fault: Fault::from_name(f[5]).ok_or(format!("unknown fault {}", f[5]))?,
                        n: num(6)? as u32, script,
                    })
                }
                x => return Err(format!("unknown line {x}")),
            }
        }
        Ok(p)
    }
}
pub const NOPS: usize = OPS.len();
