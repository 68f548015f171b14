//! V24: genesis.
//!
//! Every set of templates, in every order, in memory and on disk, with every
//! short history after it.

use std::collections::HashMap;

use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;
use vh_core::{sequences, Ctx};

use crate::env::*;

/// The templates there are: code, layout, constructors, more sections. Two have
/// the same sections at different addresses.
pub fn candidates() -> Vec<(TemplateAddr, Template)> {
    let make = |code: &[u8], sizes: &[u32], ctors: &[&str]| {
        let code = CodeSection::new(CodeKind::Wasm, code.to_vec(), CodeSection::exec_flags(), GasMode::Fixed, 0);
        let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, sizes)));
        Template::new(code, data, CtorsSection::new(ctors.iter().map(|s| s.to_string()).collect()))
    };
    let header = HeaderSection::new(7, "genesis".into(), "d".into());
    let deploy = DeploySection::new(TransactionId::repeat(1), Layer(2), Address::zeros(), TemplateAddr::repeat(0xC1));
    vec![
        (TemplateAddr::repeat(0xC0), make(&[], &[], &[])),
        (TemplateAddr::repeat(0xC1), make(&[1, 2, 3], &[4, 8], &["a", "b"]).with_header(Some(header.clone())).with_deploy(Some(deploy))),
        (TemplateAddr::repeat(0xC2), make(&[1, 2, 3], &[40], &["a"]).with_header(Some(header))),
        (TemplateAddr::repeat(0xC3), make(&[1, 2, 3], &[40], &["a"])),
    ]
}

fn config(order: &[usize]) -> GenesisConfig {
    let all = candidates();
    let mut templates = HashMap::new();
    for i in order {
        templates.insert(all[*i].0, all[*i].1.clone());
    }
    GenesisConfig { templates }
}

fn err<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

/// Exactly the templates of the set are there: now, at the genesis layer and at every layer since.
fn check(t: &Tokio, gs: &GlobalState, set: &[usize], layers: u64) -> Result<(), String> {
    for layer in [None, Some(Layer(u64::MAX))].into_iter().chain((0..layers).map(|l| Some(Layer(l)))) {
        let mut g = gs.clone();
        *g.layer_query_parameter_mut() = layer;
        for (i, (a, w)) in candidates().iter().enumerate() {
            let ts = TemplateStorage::load(g.clone(), a).map_err(err)?;
            match (t.block_on(ts.sections()), set.contains(&i)) {
                (Err(_), false) => {}
                (Ok(s), true) if s == *w.sections() => {}
                (r, w) => return Err(format!("at {:?}: template {} is {:?} (expected: {})", layer, i, r, w)),
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    Account(u64),
    Empty,
    First,
    Discard,
    Reopen,
    /// With all the templates configured.
    ReopenOther,
}

const OPS: &[Op] = &[Op::Account(5), Op::Empty, Op::First, Op::Discard, Op::Reopen, Op::ReopenOther];

fn history(c: &mut Ctx, set: &[usize], ops: &[Op], disk: bool, want: &[u8; 32]) -> Result<(), String> {
    let dir = c.scratch.join(format!("g{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let uri = if disk { format!("sqlite:{}/db?mode=rwc", dir.display()) } else { ":memory:".to_string() };
    let mut t = tokio();
    let mut gs = t.block_on(GlobalState::new(&uri, config(set)));
    let mut layers = 0u64;
    let mut run = || -> Result<(), String> {
        let state = |t: &Tokio, gs: &GlobalState| t.block_on(gs.current_state()).map(|s| s.0).map_err(err);
        if state(&t, &gs)? != *want || gs.has_uncommitted_changes() {
            return Err(format!("the fingerprint is {:?}, not {:?}, or there are changes", state(&t, &gs)?, want));
        }
        check(&t, &gs, set, layers)?;
        for (k, op) in ops.iter().enumerate() {
            c.step();
            match op {
                Op::Account(b) => {
                    let a = addr(0xA0 + k as u8);
                    t.block_on(AccountStorage::create_stub(gs.clone(), &a, "n".into(), *b, 1)).map_err(err)?;
                    t.block_on(gs.checkpoint()).map_err(err)?;
                    t.block_on(gs.commit()).map_err(err)?;
                    layers += 1;
                }
                Op::Empty => {
                    t.block_on(gs.commit()).map_err(err)?;
                    layers += 1;
                }
                Op::First => {
                    let r = t.block_on(gs.rewind(Layer(0)));
                    if r.is_ok() != (layers > 0) {
                        return Err(format!("rewinding to the first of {} layers: {:?}", layers, r));
                    }
                    layers = layers.min(1);
                }
                Op::Discard => {
                    for (a, _) in candidates() {
                        let tpl = template_with_layout(&[9]);
                        t.block_on(TemplateStorage::create(gs.clone(), &a, tpl.sections().clone(), Sections::default())).map_err(err)?;
                    }
                    t.block_on(gs.rollback()).map_err(err)?;
                }
                Op::Reopen | Op::ReopenOther => {
                    let before = state(&t, &gs)?;
                    drop(std::mem::replace(&mut gs, t.block_on(GlobalState::in_memory(no_genesis()))));
                    t = tokio();
                    gs = t.block_on(GlobalState::new(&uri, if *op == Op::Reopen { config(set) } else { config(&[0, 1, 2, 3]) }));
                    if state(&t, &gs)? != before {
                        return Err(format!("{:?} changes the fingerprint", &ops[..=k]));
                    }
                }
            }
            if layers == 0 && state(&t, &gs)? != *want {
                return Err(format!("after {:?}: another fingerprint without any layer", &ops[..=k]));
            }
            check(&t, &gs, set, layers).map_err(|e| format!("after {:?}: {}", &ops[..=k], e))?;
        }
        c.state(&(set, ops, disk));
        Ok(())
    };
    let r = run();
    drop(gs);
    drop(t);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub fn v24(c: &mut Ctx) {
    let t = tokio();
    let prints: Vec<[u8; 32]> = (0..16usize)
        .map(|m| {
            let set: Vec<usize> = (0..4).filter(|i| m >> i & 1 == 1).collect();
            let gs = t.block_on(GlobalState::in_memory(config(&set)));
            t.block_on(gs.current_state()).unwrap().0
        })
        .collect();
    c.case(
        || "fingerprints of different sets".to_string(),
        |c| {
            for i in 0..16 {
                for j in 0..i {
                    c.step();
                    if prints[i] == prints[j] {
                        return Err(format!("sets {:04b} and {:04b} have the same fingerprint", i, j));
                    }
                }
            }
            Ok(())
        },
    );
    // Every order of every set; a map iterates differently every time.
    for len in 0..=4usize {
        sequences(4, len, &mut |o| {
            let m = o.iter().fold(0usize, |m, i| m | 1 << i);
            if m.count_ones() as usize != len {
                return;
            }
            for again in 0..3 {
                for disk in [false, true] {
                    c.case(|| format!("order {:?} ({}), on disk: {}", o, again, disk), |c| history(c, o, &[], disk, &prints[m]));
                }
            }
        });
    }
    // Histories.
    for m in 0..16usize {
        let set: Vec<usize> = (0..4).filter(|i| m >> i & 1 == 1).collect();
        for len in 1..=c.pick(3usize, 4) {
            if len > 2 && !matches!(m, 0 | 6 | 13) && !c.thorough() {
                continue;
            }
            sequences(OPS.len(), len, &mut |v| {
                let ops: Vec<Op> = v.iter().map(|i| OPS[*i]).collect();
                let disk = ops.iter().any(|o| matches!(o, Op::Reopen | Op::ReopenOther));
                c.case(|| format!("templates {:?}, {:?}", set, ops), |c| history(c, &set, &ops, disk, &prints[m]));
            });
        }
    }
    // The same after many layers.
    for m in [6usize, 13] {
        let set: Vec<usize> = (0..4).filter(|i| m >> i & 1 == 1).collect();
        for n in c.pick(vec![5usize, 40], vec![5, 40, 300]) {
            sequences(OPS.len(), 1, &mut |v| {
                let mut ops = vec![Op::Account(7); n];
                ops.push(OPS[v[0]]);
                c.case(|| format!("templates {:?}, {} layers, {:?}", set, n, ops[n]), |c| history(c, &set, &ops, true, &prints[m]));
            });
        }
    }
    c.case(
        || "mainnet".to_string(),
        |c| {
            c.step();
            let g = GenesisConfig::mainnet();
            let want: Vec<(TemplateAddr, Template)> = g.templates.iter().map(|(a, t)| (*a, t.clone())).collect();
            let t = tokio();
            let gs = t.block_on(GlobalState::in_memory(g));
            for (a, w) in want {
                if a != compute_template_addr(w.code_section()) {
                    return Err(format!("template {:?} isn't at the address of its code", a));
                }
                let ts = TemplateStorage::load(gs.clone(), &a).map_err(err)?;
                if t.block_on(ts.sections()).map_err(err)? != *w.sections() {
                    return Err(format!("template {:?} has other sections", a));
                }
            }
            Ok(())
        },
    );
}
