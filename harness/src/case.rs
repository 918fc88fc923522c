//! A case: everything needed to re-run one generated input.
use crate::enc::{Enc, run_enc};
use crate::engine::*;
use crate::ops::Op;
use crate::special::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Case {
    /// a history on one file system, against the model
    Hist { cfg: Config, opts: Opts, ops: Vec<Op> },
    /// the same history on several back ends
    Diff { cfgs: Vec<Config>, ops: Vec<Op> },
    /// two file systems and foreign memories in one manager
    Multi(Multi),
    /// repeated rounds
    Cycle(Cycle),
    /// a history over an image of an earlier release
    Legacy(Legacy),
    Enc(Vec<Enc>),
    /// opening of unsuitable images
    Refuse(Refuse),
}

pub fn run_case(c: &Case) -> (CaseStats, Result<(), Div>) {
    match c {
        Case::Hist { cfg, opts, ops } => {
            let mut w = World::new(*cfg, *opts);
            let r = w.run(ops);
            (std::mem::take(&mut w.stats), r)
        }
        Case::Diff { cfgs, ops } => run_diff(cfgs, ops),
        Case::Multi(m) => run_multi(m),
        Case::Cycle(m) => run_cycle(m),
        Case::Legacy(m) => run_legacy(m),
        Case::Enc(v) => run_enc(v),
        Case::Refuse(m) => run_refuse(m),
    }
}

impl Case {
    pub fn describe(&self) -> String {
        let join = |ops: &[Op]| ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ");
        match self {
            Case::Hist { cfg, ops, .. } => format!("{cfg:?}: {}", join(ops)),
            Case::Diff { cfgs, ops } => format!("{cfgs:?}: {}", join(ops)),
            Case::Cycle(c) => format!("{:?} setup: {} -- {} rounds (clean-up {}): {}", c.cfg, join(&c.setup), c.rounds, c.clean, join(&c.round)),
            x => format!("{x:?}"),
        }
    }
}
