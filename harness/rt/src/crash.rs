//! V03: committed layers survive crashes, and I/O errors are survived.
//!
//! Operation histories run on a database in a scratch directory while every
//! write, truncation, sync and removal is recorded. For every position in that
//! record the disk contents a crash there can leave behind are rebuilt (all of
//! the unsynced writes, none, torn, reordered), the database is opened again
//! by the real code, and what is found is compared with the layers whose commit
//! (or rewind) had returned.

use std::collections::{BTreeMap, HashSet};
use std::path::Path;

use svm_state::{AccountStorage, GlobalState};
use svm_types::*;
use vh_core::{hash_of, no_panic, sequences, Ctx};

use crate::env::*;
use crate::io::{self, Event};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Sets the balance of account A and commits.
    Small(u64),
    /// Sets the balances of both accounts and a variable larger than a page.
    Big(u64),
    /// Commits an empty layer.
    Empty,
    Rewind(u64),
    /// Closes the database and opens it again.
    Reopen,
}

const SIZES: &[u32] = &[8, 1600];
/// In the wide mode `Big` writes another variable: a layer of hundreds of keys.
const WIDE_SIZES: &[u32] = &[8, 1600, 17000];

thread_local! {
    static WIDE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

fn wide() -> bool {
    WIDE.with(|w| w.get())
}

/// What the store holds: per layer (from layer 0) the two balances and the seed
/// of the variable.
type Layers = Vec<(u64, u64, u8)>;

fn apply_model(l: &mut Layers, op: Op) {
    let last = *l.last().unwrap();
    match op {
        Op::Small(v) => l.push((v, last.1, last.2)),
        Op::Big(v) => l.push((v, v + 1, v as u8)),
        Op::Empty => l.push(last),
        Op::Rewind(to) => l.truncate(to as usize + 1),
        Op::Reopen => {}
    }
}

fn big(seed: u8) -> Vec<u8> {
    long(seed, 1600)
}

fn long(seed: u8, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    (0..n).map(|i| (i as u8).wrapping_mul(seed) ^ (i >> 8) as u8 ^ seed).collect()
}

fn uri(dir: &Path) -> String {
    format!("sqlite:{}/db?mode=rwc", dir.display())
}

fn genesis() -> svm_genesis_config::GenesisConfig {
    svm_genesis_config::GenesisConfig { templates: crate::genesis::candidates().into_iter().skip(1).take(2).collect() }
}

/// The changes of the operation, not committed yet.
async fn prepare(gs: &mut GlobalState, op: Op) -> Result<(), String> {
    let e = |e: svm_state::StorageError| format!("{:?}", e);
    match op {
        Op::Small(v) => {
            let mut a = AccountStorage::load(gs.clone(), &addr(0xA)).await.map_err(e)?;
            a.set_balance(v).await.map_err(e)?;
        }
        Op::Big(v) => {
            let mut a = AccountStorage::load(gs.clone(), &addr(0xA)).await.map_err(e)?;
            let mut b = AccountStorage::load(gs.clone(), &addr(0xB)).await.map_err(e)?;
            a.set_balance(v).await.map_err(e)?;
            b.set_balance(v + 1).await.map_err(e)?;
            a.set_var_bytes(1, &big(v as u8)).await.map_err(e)?;
            if wide() {
                a.set_var_bytes(2, &long(v as u8, 17000)).await.map_err(e)?;
            }
        }
        _ => {}
    }
    gs.checkpoint().await.map_err(e)
}

async fn finish(gs: &mut GlobalState, op: Op) -> Result<(), String> {
    match op {
        Op::Rewind(to) => gs.rewind(Layer(to)).await.map_err(|e| format!("{:?}", e)),
        _ => gs.commit().await.map(|_| ()).map_err(|e| format!("{:?}", e)),
    }
}

async fn init(gs: &mut GlobalState) {
    let ta = TemplateAddr::repeat(0x80);
    put_template(gs, &ta, if wide() { WIDE_SIZES } else { SIZES }).await;
    put_account(gs, &addr(0xA), &ta, 10, 1).await;
    put_account(gs, &addr(0xB), &ta, 20, 1).await;
    gs.checkpoint().await.unwrap();
    gs.commit().await.unwrap();
}

async fn read_at(gs: &GlobalState, layer: Option<u64>) -> Result<Option<(u64, u64, u8)>, String> {
    let mut gs = gs.clone();
    *gs.layer_query_parameter_mut() = layer.map(Layer);
    let a = match AccountStorage::load(gs.clone(), &addr(0xA)).await {
        Ok(a) => a,
        Err(_) => return Ok(None),
    };
    let e = |e: svm_state::StorageError| format!("at layer {:?}: {:?}", layer, e);
    let b = AccountStorage::load(gs.clone(), &addr(0xB)).await.map_err(e)?;
    let var = a.get_var_vec(1).await.map_err(e)?;
    // big(seed)[0] == seed
    let seed = var[0];
    if var != big(seed) {
        return Err(format!("at layer {:?} the variable holds parts of different values", layer));
    }
    if wide() && a.get_var_vec(2).await.map_err(e)? != long(seed, 17000) {
        return Err(format!("at layer {:?} the variables hold different values", layer));
    }
    Ok(Some((a.balance().await.map_err(e)?, b.balance().await.map_err(e)?, seed)))
}

/// Opens the database and returns all its layers (`None`: no layer but genesis)
/// with the fingerprint of the last one.
fn examine(dir: &Path) -> Result<(Option<Layers>, [u8; 32]), String> {
    let t = tokio();
    no_panic(|| {
        t.block_on(async {
            let mut gs = GlobalState::new(&uri(dir), genesis()).await;
            let state = gs.current_state().await.map_err(|e| format!("{:?}", e))?;
            let first = Layer(u64::MAX);
            let mut g = gs.clone();
            *g.layer_query_parameter_mut() = Some(first);
            if AccountStorage::load(g, &addr(0xA)).await.is_ok() {
                return Err("there are accounts in the genesis layer".into());
            }
            for (a, want) in &genesis().templates {
                for layer in [None, Some(first)] {
                    let mut g = gs.clone();
                    *g.layer_query_parameter_mut() = layer;
                    let ts = svm_state::TemplateStorage::load(g, a).map_err(|e| format!("{:?}", e))?;
                    match ts.sections().await {
                        Ok(s) if s == *want.sections() => {}
                        r => return Err(format!("the template {:?} of the genesis is {:?}", a, r)),
                    }
                }
            }
            let now = read_at(&gs, None).await?;
            let last = match no_panic_layer(&mut gs).await {
                Some(l) => l,
                None => {
                    if now.is_some() {
                        return Err("accounts without a layer".to_string());
                    }
                    // Usable?
                    init(&mut gs).await;
                    if read_at(&gs, Some(0)).await? != Some((10, 20, 0)) {
                        return Err("unusable after the crash".into());
                    }
                    return Ok((None, state.0));
                }
            };
            let mut layers = vec![];
            for l in 0..=last {
                match read_at(&gs, Some(l)).await? {
                    Some(x) => layers.push(x),
                    None => return Err(format!("layer {} has no accounts", l)),
                }
            }
            if now.as_ref() != layers.last() {
                return Err(format!("reads {:?} now, but the last layer has {:?}", now, layers.last()));
            }
            if gs.has_uncommitted_changes() {
                return Err("uncommitted changes right after opening".into());
            }
            // The store goes on from here.
            prepare(&mut gs, Op::Big(77)).await?;
            finish(&mut gs, Op::Big(77)).await?;
            if read_at(&gs, Some(last + 1)).await? != Some((77, 78, 77)) || read_at(&gs, None).await? != Some((77, 78, 77)) {
                return Err("a layer committed after reopening doesn't hold what was written".into());
            }
            if read_at(&gs, Some(last)).await?.as_ref() != layers.last() {
                return Err("a layer committed after reopening changed the one before".into());
            }
            Ok((Some(layers), state.0))
        })
    })
    .and_then(|r| r)
}

/// `current_layer` has no number for the genesis layer.
async fn no_panic_layer(gs: &mut GlobalState) -> Option<u64> {
    use std::future::Future;
    let fut = gs.current_layer();
    let mut fut = Box::pin(fut);
    futures_catch(|cx| fut.as_mut().poll(cx)).await
}

async fn futures_catch<F>(mut poll: F) -> Option<u64>
where
    F: FnMut(&mut std::task::Context<'_>) -> std::task::Poll<svm_state::StorageResult<(Layer, State)>>,
{
    struct W<F>(F);
    impl<F> std::future::Future for W<F>
    where
        F: FnMut(&mut std::task::Context<'_>) -> std::task::Poll<svm_state::StorageResult<(Layer, State)>> + Unpin,
    {
        type Output = Option<u64>;
        fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<u64>> {
            let me = self.get_mut();
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (me.0)(cx))) {
                Err(_) => std::task::Poll::Ready(None),
                Ok(std::task::Poll::Pending) => std::task::Poll::Pending,
                Ok(std::task::Poll::Ready(Ok((l, _)))) => std::task::Poll::Ready(Some(l.0)),
                Ok(std::task::Poll::Ready(Err(_))) => std::task::Poll::Ready(None),
            }
        }
    }
    W(Box::new(move |cx: &mut std::task::Context<'_>| poll(cx))).await
}

type Files = BTreeMap<String, Vec<u8>>;

fn apply_event(f: &mut Files, e: &Event, torn: Option<usize>) {
    match e {
        Event::Write { file, off, data } => {
            let data = &data[..torn.unwrap_or(data.len()).min(data.len())];
            let v = f.entry(file.clone()).or_default();
            let end = *off as usize + data.len();
            if v.len() < end {
                v.resize(end, 0);
            }
            v[*off as usize..end].copy_from_slice(data);
        }
        Event::Truncate { file, len } => f.entry(file.clone()).or_default().resize(*len as usize, 0),
        Event::Unlink { file } => {
            f.remove(file);
        }
        _ => {}
    }
}

fn file_of(e: &Event) -> Option<&str> {
    match e {
        Event::Write { file, .. } | Event::Truncate { file, .. } | Event::Sync { file } | Event::Unlink { file } => Some(file),
        _ => None,
    }
}

/// The disk contents a crash just after `log[..p]` can leave, with a description.
fn images(log: &[Event], p: usize, deep: bool) -> Vec<(String, Files)> {
    // Per event: is it followed by a sync of its file before `p`?
    let mut synced_until: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, e) in log[..p].iter().enumerate() {
        if let Event::Sync { file } = e {
            synced_until.insert(file, i);
        }
        // The removal of a file is taken to reach the disk in order.
        if let Event::Unlink { file } = e {
            synced_until.insert(file, i + 1);
        }
    }
    let durable = |i: usize, e: &Event| file_of(e).map_or(true, |f| synced_until.get(f).map_or(false, |s| i < *s));
    let pending: Vec<usize> = (0..p)
        .filter(|i| matches!(log[*i], Event::Write { .. } | Event::Truncate { .. }) && !durable(*i, &log[*i]))
        .collect();
    let build = |keep: &dyn Fn(usize) -> Option<usize>| {
        // `keep(i)`: how many bytes of the pending event i made it (None: nothing)
        let mut f = Files::new();
        for (i, e) in log[..p].iter().enumerate() {
            if durable(i, e) {
                apply_event(&mut f, e, None);
            } else if let Some(n) = keep(i) {
                apply_event(&mut f, e, Some(n));
            }
        }
        f
    };
    let mut out = vec![("everything written".to_string(), build(&|_| Some(usize::MAX)))];
    if pending.is_empty() {
        return out;
    }
    out.push(("nothing unsynced".to_string(), build(&|_| None)));
    let last = *pending.last().unwrap();
    for cut in [1usize, 512, 4096 - 512] {
        out.push((format!("last write torn at {}", cut), build(&|i| Some(if i == last { cut } else { usize::MAX }))));
    }
    out.push(("only the last unsynced write".to_string(), build(&|i| if i == last { Some(usize::MAX) } else { None })));
    if deep {
        for q in pending.iter().take(24) {
            let q = *q;
            out.push((format!("unsynced write {} lost", q), build(&|i| if i == q { None } else { Some(usize::MAX) })));
        }
    }
    let mut names: Vec<&str> = pending.iter().filter_map(|i| file_of(&log[*i])).collect();
    names.sort();
    names.dedup();
    if names.len() > 1 {
        for n in names {
            out.push((
                format!("unsynced writes of {} only", n),
                build(&|i| if file_of(&log[i]) == Some(n) { Some(usize::MAX) } else { None }),
            ));
        }
    }
    out
}

fn lay(dir: &Path, f: &Files) {
    for (n, c) in f {
        std::fs::write(dir.join(n), c).unwrap();
    }
}

/// A directory of its own for every database: connections of an earlier one may
/// still be closing.
fn fresh(c: &Ctx) -> std::path::PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = c.scratch.join(N.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_string());
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn crash_case(c: &mut Ctx, ops: &[Op]) -> Result<(), String> {
    let dir = fresh(c);
    io::start(&dir.display().to_string());
    // What is there after each operation, with its fingerprint; [0]: nothing.
    let mut t = tokio();
    let mut gs = t.block_on(GlobalState::new(&uri(&dir), genesis()));
    let empty = t.block_on(gs.current_state()).unwrap().0;
    let mut states: Vec<(Option<Layers>, [u8; 32])> = vec![(None, empty)];
    let mut layers: Layers = vec![(10, 20, 0)];
    io::mark(Event::Begin(1));
    t.block_on(init(&mut gs));
    io::mark(Event::Ack(1));
    states.push((Some(layers.clone()), t.block_on(gs.current_state()).unwrap().0));
    for (i, op) in ops.iter().enumerate() {
        c.step();
        if *op == Op::Reopen {
            drop(gs);
            drop(t);
            t = tokio();
            // Wait for the connections to be closed.
            io::mark(Event::Begin(i + 2));
            gs = t.block_on(GlobalState::new(&uri(&dir), genesis()));
        } else {
            t.block_on(prepare(&mut gs, *op))?;
            io::mark(Event::Begin(i + 2));
            t.block_on(finish(&mut gs, *op))?;
        }
        io::mark(Event::Ack(i + 2));
        apply_model(&mut layers, *op);
        states.push((Some(layers.clone()), t.block_on(gs.current_state()).unwrap().0));
    }
    drop(gs);
    drop(t);
    let log = io::stop();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut begun, mut acked) = (0usize, 0usize);
    let mut checked = 0u64;
    // Crashes before the last operation belong to the history without it.
    let first = log
        .iter()
        .position(|e| matches!(e, Event::Ack(n) if *n == ops.len()))
        .unwrap_or(0);
    for p in 0..=log.len() {
        if p > 0 {
            match log[p - 1] {
                Event::Begin(n) => begun = n,
                Event::Ack(n) => acked = n,
                _ => {}
            }
        }
        if p < first {
            continue;
        }
        for (what, files) in images(&log, p, c.thorough()) {
            let h = hash_of(&(&files, begun, acked));
            if !seen.insert(h) {
                continue;
            }
            c.state(&(&files, acked));
            c.step();
            checked += 1;
            let img = fresh(c);
            lay(&img, &files);
            // Recording keeps the scratch files from being flushed for real.
            io::start("/nonexistent");
            let got = examine(&img);
            io::stop();
            let _ = std::fs::remove_dir_all(&img);
            let got = got.map_err(|e| format!("crash after I/O call {} of {} ({}): {}", p, log.len(), what, e))?;
            let mut allowed: Vec<&(Option<Layers>, [u8; 32])> = vec![&states[acked]];
            if begun > acked {
                allowed.push(&states[begun]);
            }
            if !allowed.iter().any(|a| **a == got) {
                return Err(format!(
                    "crash after I/O call {} of {} ({}): found {:?}, but {} operations had returned, which leave {:?}",
                    p, log.len(), what, got.0, acked, states[acked].0
                ));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if checked < 3 {
        return Err("the harness saw no I/O".into());
    }
    Ok(())
}

/// One run with the `n`-th I/O call of the operations failing. Returns whether
/// the failure happened at all.
fn fault_run(c: &mut Ctx, ops: &[Op], n: i64, errno: i32, sticky: bool) -> Result<bool, String> {
    let dir = fresh(c);
    io::start(&dir.display().to_string());
    let t = tokio();
    let mut gs = t.block_on(GlobalState::new(&uri(&dir), genesis()));
    t.block_on(init(&mut gs));
    let mut layers: Layers = vec![(10, 20, 0)];
    let mut hit = false;
    let mut left = n;
    let r = (|| {
        for (i, op) in ops.iter().enumerate() {
            if *op == Op::Reopen {
                continue;
            }
            c.step();
            t.block_on(prepare(&mut gs, *op)).map_err(|e| format!("operation {}: {}", i, e))?;
            let before = layers.clone();
            let mut after = layers.clone();
            apply_model(&mut after, *op);
            if !hit {
                io::fail_at(left, errno, sticky);
            }
            let res = no_panic(|| t.block_on(finish(&mut gs, *op)))?;
            let failed_now = io::failed() && !hit;
            left = io::no_fail();
            match res {
                Ok(()) => layers = after,
                Err(e) => {
                    if !failed_now {
                        return Err(format!("operation {} failed by itself: {}", i, e));
                    }
                    // Nothing may have changed, and the operation can be repeated.
                    let last = before.len() as u64 - 1;
                    for l in 0..=last {
                        let got = t.block_on(read_at(&gs, Some(l)))?;
                        if got != Some(before[l as usize]) {
                            return Err(format!("after the failure of operation {} layer {} reads {:?}", i, l, got));
                        }
                    }
                    let got = t.block_on(gs.current_layer()).map_err(|e| format!("{:?}", e))?.0;
                    if got.0 != last {
                        return Err(format!("after the failure of operation {} the last layer is {}", i, got.0));
                    }
                    t.block_on(finish(&mut gs, *op))
                        .map_err(|e| format!("operation {} can't be repeated after an I/O error: {}", i, e))?;
                    layers = after;
                }
            }
            // Not reached: the countdown goes on in the next operation.
            hit |= failed_now;
            for (l, want) in layers.iter().enumerate() {
                let got = t.block_on(read_at(&gs, Some(l as u64)))?;
                if got != Some(*want) {
                    return Err(format!("after operation {} layer {} reads {:?}, not {:?}", i, l, got, want));
                }
            }
            let now = t.block_on(read_at(&gs, None))?;
            if now.as_ref() != layers.last() {
                return Err(format!("after operation {} reads {:?}, not {:?}", i, now, layers.last()));
            }
        }
        Ok(())
    })();
    let state = no_panic(|| t.block_on(gs.current_state()));
    drop(gs);
    drop(t);
    io::stop();
    r?;
    let state = state?.map_err(|e| format!("{:?}", e))?.0;
    io::start("/nonexistent");
    let got = examine(&dir);
    io::stop();
    let got = got.map_err(|e| format!("reopened: {}", e))?;
    if got != (Some(layers.clone()), state) {
        return Err(format!("reopened: found {:?}, not {:?}", got.0, layers));
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(hit)
}

fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(" ")
}

pub fn v03(c: &mut Ctx) {
    let kinds = |n: usize, i: usize| -> Op {
        match n {
            0 => Op::Small(100 + i as u64),
            1 => Op::Big(3 + 2 * i as u64),
            2 => Op::Rewind(0),
            3 => Op::Empty,
            _ => Op::Reopen,
        }
    };
    let some = [vec![1], vec![1, 1], vec![1, 2], vec![1, 0, 1]];
    for v in &some[..c.pick(3, 4)] {
        let ops: Vec<Op> = v.iter().enumerate().map(|(i, k)| kinds(*k, i)).collect();
        c.case(|| format!("crash, wide: {}", show(&ops)), |c| {
            WIDE.with(|w| w.set(true));
            let r = crash_case(c, &ops);
            WIDE.with(|w| w.set(false));
            r
        });
    }
    for d in 0..=c.pick(3, 4) {
        sequences(5, d, &mut |v| {
            let ops: Vec<Op> = v.iter().enumerate().map(|(i, k)| kinds(*k, i)).collect();
            if v.windows(2).any(|w| w[0] == w[1] && w[0] == 4) || v.last() == Some(&4) && v.len() > 2 {
                return;
            }
            c.case(|| format!("crash: {}", show(&ops)), |c| crash_case(c, &ops));
        });
    }
    // One failing call (and a disk that stays full for the rest of the operation).
    for d in 1..=c.pick(2, 3) {
        sequences(4, d, &mut |v| {
            let ops: Vec<Op> = v.iter().enumerate().map(|(i, k)| kinds(*k, i)).collect();
            for (errno, sticky) in [(io::EIO, false), (io::ENOSPC, true)] {
                c.case(
                    || format!("fault: errno {} sticky {}: {}", errno, sticky, show(&ops)),
                    |c| {
                        let mut n = 0;
                        loop {
                            let hit = fault_run(c, &ops, n, errno, sticky)
                                .map_err(|e| format!("with I/O call {} of an operation failing: {}", n, e))?;
                            c.state(&(show(&ops), n, errno));
                            if !hit {
                                break;
                            }
                            n += 1;
                        }
                        if n < 2 && ops.iter().any(|o| matches!(o, Op::Small(_) | Op::Big(_))) {
                            return Err("the harness failed no I/O".into());
                        }
                        Ok(())
                    },
                );
            }
        });
    }
}
