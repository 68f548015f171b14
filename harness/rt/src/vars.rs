//! V18: the variables of an account, for every layout of them.
//!
//! Variables lie in segments of the store, so their sizes and offsets matter:
//! all the combinations around the borders of segments are laid out, all the
//! orders of writes are made, and after each every byte of every variable of
//! the accounts is compared.

use std::sync::Arc;

use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;
use vh_core::{no_panic, sequences, Ctx};

use crate::env::*;

struct Store {
    tokio: Arc<Tokio>,
    gs: GlobalState,
    next: u64,
}

fn numbered<T: From<[u8; 20]>>(n: u64, last: u8) -> T {
    // Addresses that differ in one byte only.
    let mut b = [0xEE; 20];
    b[..8].copy_from_slice(&n.to_le_bytes());
    b[19] = last;
    T::from(b)
}

/// One way to write a variable.
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Exact,
    /// From a longer buffer.
    Longer,
    I32,
    I64,
}

struct Accounts<'a> {
    s: &'a Store,
    first: u32,
    sizes: Vec<u32>,
    storage: Vec<AccountStorage>,
    addrs: Vec<Address>,
    want: Vec<Vec<Vec<u8>>>,
}

fn value(acct: usize, var: usize, turn: u8, size: usize) -> Vec<u8> {
    // Neither zero, nor repeating with the period of a segment.
    (0..size).map(|i| ((i % 251) as u8).wrapping_mul(7).wrapping_add((17 * var + 101 * acct + 53 * turn as usize) as u8) | 1 << (turn % 8)).collect()
}

impl<'a> Accounts<'a> {
    fn new(s: &'a mut Store, first: u32, sizes: &[u32]) -> Self {
        s.next += 1;
        let n = s.next;
        let s: &Store = s;
        let t: TemplateAddr = numbered(n, 0);
        let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(first, sizes)));
        let template = Template::new(CodeSection::new(CodeKind::Wasm, vec![], 0, GasMode::Fixed, 0), data, CtorsSection::new(vec![]));
        let mut addrs = vec![];
        let storage = s.tokio.block_on(async {
            TemplateStorage::create(s.gs.clone(), &t, template.sections().clone(), Sections::with_capacity(0)).await.unwrap();
            let mut v = vec![];
            for last in [1u8, 2] {
                let a: Address = numbered(n, last);
                put_account(&s.gs, &a, &t, 3, 4).await;
                v.push(AccountStorage::load(s.gs.clone(), &a).await.unwrap());
                addrs.push(a);
            }
            v
        });
        let want = vec![sizes.iter().map(|n| vec![0; *n as usize]).collect(); 2];
        Accounts { s, first, sizes: sizes.to_vec(), storage, addrs, want }
    }

    fn check(&self) -> Result<(), String> {
        self.check_of(&self.storage, &self.want)
    }

    fn check_of(&self, storage: &[AccountStorage], want: &[Vec<Vec<u8>>]) -> Result<(), String> {
        let t = &self.s.tokio;
        for (a, st) in storage.iter().enumerate() {
            for (v, w) in want[a].iter().enumerate() {
                let id = self.first + v as u32;
                let got = t.block_on(st.get_var_vec(id)).map_err(|e| format!("{:?}", e))?;
                if got != *w {
                    return Err(format!("variable {} of account {} reads {:?}, not {:?}", v, a, got, w));
                }
            }
        }
        Ok(())
    }

    /// Reads in the other ways.
    fn check_reads(&self) -> Result<(), String> {
        let t = &self.s.tokio;
        for (a, st) in self.storage.iter().enumerate() {
            for (v, w) in self.want[a].iter().enumerate() {
                let id = self.first + v as u32;
                let n = w.len();
                for extra in [0usize, 1, 33] {
                    let mut b = vec![0xAB; n + extra];
                    t.block_on(st.get_var(id, &mut b)).map_err(|e| format!("{:?}", e))?;
                    if b[..n] != w[..] || b[n..].iter().any(|x| *x != 0xAB) {
                        return Err(format!("variable {} of account {} reads {:?} into a buffer of {} bytes, not {:?}", v, a, b, n + extra, w));
                    }
                }
                let mut small = vec![0; n - 1];
                if no_panic(|| t.block_on(st.get_var(id, &mut small))).is_ok() {
                    return Err(format!("variable {} of account {} was read into a buffer too small", v, a));
                }
                let mut le = w.clone();
                le.resize(n.max(8), 0);
                if n <= 8 {
                    let got = t.block_on(st.get_var_i64(id)).map_err(|e| format!("{:?}", e))?;
                    let mut x = [0; 8];
                    x.copy_from_slice(&le[..8]);
                    if got != i64::from_le_bytes(x) {
                        return Err(format!("variable {} of account {} reads {} as 64 bits, its bytes are {:?}", v, a, got, w));
                    }
                }
                if n <= 4 {
                    let got = t.block_on(st.get_var_i32(id)).map_err(|e| format!("{:?}", e))?;
                    let mut x = [0; 4];
                    x.copy_from_slice(&le[..4]);
                    if got != i32::from_le_bytes(x) {
                        return Err(format!("variable {} of account {} reads {} as 32 bits, its bytes are {:?}", v, a, got, w));
                    }
                }
                if n <= 20 {
                    let got = t.block_on(st.get_var_array::<20>(id)).map_err(|e| format!("{:?}", e))?;
                    let mut x = w.clone();
                    x.resize(20, 0);
                    if got[..] != x[..] {
                        return Err(format!("variable {} of account {} reads {:?} as an array of 20, its bytes are {:?}", v, a, got, w));
                    }
                }
            }
            // There are no other variables.
            for id in [self.first.wrapping_sub(1), self.first + self.sizes.len() as u32, u32::MAX] {
                if no_panic(|| t.block_on(st.get_var_vec(id))).is_ok() {
                    return Err(format!("variable {} of account {} can be read, but isn't there", id, a));
                }
            }
            // Nor do variables lie over the rest of the account.
            let rest = t.block_on(async { (st.balance().await.unwrap(), st.counter().await.unwrap(), st.name().await.unwrap()) });
            if rest != (3, 4, self.addrs[a].to_string()) {
                return Err(format!("account {} has now {:?}", a, rest));
            }
        }
        Ok(())
    }

    fn write(&mut self, acct: usize, var: usize, turn: u8, how: How) -> Result<(), String> {
        let n = self.sizes[var] as usize;
        let id = self.first + var as u32;
        let t = self.s.tokio.clone();
        let st = &mut self.storage[acct];
        let val = match how {
            How::Exact => {
                let v = value(acct, var, turn, n);
                t.block_on(st.set_var_bytes(id, &v)).map_err(|e| format!("{:?}", e))?;
                v
            }
            How::Longer => {
                let v = value(acct, var, turn, n + 35);
                t.block_on(st.set_var_bytes(id, &v)).map_err(|e| format!("{:?}", e))?;
                v[..n].to_vec()
            }
            How::I32 => {
                let v = value(acct, var, turn, 4);
                let mut x = [0; 4];
                x.copy_from_slice(&v);
                t.block_on(st.set_var_i32(id, i32::from_le_bytes(x))).map_err(|e| format!("{:?}", e))?;
                v[..n].to_vec()
            }
            How::I64 => {
                let v = value(acct, var, turn, 8);
                let mut x = [0; 8];
                x.copy_from_slice(&v);
                t.block_on(st.set_var_i64(id, i64::from_le_bytes(x))).map_err(|e| format!("{:?}", e))?;
                v[..n].to_vec()
            }
        };
        self.want[acct][var] = val;
        Ok(())
    }

    /// A write that has to be refused.
    fn bad_write(&mut self, acct: usize, var: usize) -> Result<(), String> {
        let n = self.sizes[var] as usize;
        let id = self.first + var as u32;
        let t = self.s.tokio.clone();
        let st = &mut self.storage[acct];
        let v = vec![9; n - 1];
        if no_panic(|| t.block_on(st.set_var_bytes(id, &v))).is_ok() {
            return Err(format!("{} bytes were written to a variable of {}", n - 1, n));
        }
        let id = self.first + self.sizes.len() as u32;
        if no_panic(|| t.block_on(st.set_var_bytes(id, &[1; 64]))).is_ok() {
            return Err("a variable that isn't there was written".into());
        }
        Ok(())
    }
}

/// All the sequences of `len` writes over two accounts, on one layout.
fn writes(c: &mut Ctx, s: &mut Store, first: u32, sizes: &[u32], len: usize) -> Result<(), String> {
    let n = sizes.len();
    let mut err = None;
    sequences(2 * n, len, &mut |v| {
        if err.is_some() || v[0] % 2 == 1 && len > 1 && n > 1 {
            return; // the two accounts are alike
        }
        let mut run = || -> Result<(), String> {
            let mut a = Accounts::new(s, first, sizes);
            for (turn, x) in v.iter().enumerate() {
                c.step();
                a.write(x % 2, x / 2, turn as u8, if turn % 2 == 0 { How::Exact } else { How::Longer })?;
                a.check().map_err(|e| format!("after the writes {:?}: {}", &v[..=turn], e))?;
            }
            c.state(&(first, sizes, v));
            Ok(())
        };
        if let Err(e) = run() {
            err = Some(e);
        }
        s.tokio.block_on(s.gs.rollback()).unwrap();
    });
    err.map_or(Ok(()), Err)
}

/// Two small variables that are `gap` bytes apart, in each order of writing.
fn far(c: &mut Ctx, s: &mut Store, gap: u32) -> Result<(), String> {
    let t = s.tokio.clone();
    let mut gs = s.gs.clone();
    // A variable has 65535 bytes at most.
    let mut sizes = vec![8];
    let mut left = gap;
    while left > 0 {
        sizes.push(left.min(65535));
        left -= left.min(65535);
    }
    let x = sizes.len();
    sizes.extend(&[8, 33]);
    for order in [[0usize, x, x + 1], [x + 1, x, 0], [x, 0, x + 1]] {
        let mut a = Accounts::new(s, 0, &sizes);
        let mut want = a.want.clone();
        let check = |a: &Accounts, want: &[Vec<Vec<u8>>], when: &str| -> Result<(), String> {
            for acct in 0..2 {
                for v in [0usize, x - 1, x, x + 1] {
                    let got = t.block_on(a.storage[acct].get_var_vec(v as u32)).map_err(|e| format!("{:?}", e))?;
                    if got != want[acct][v] {
                        return Err(format!("{}: variable {} of account {} reads {:?}, not {:?}", when, v, acct, got, want[acct][v]));
                    }
                }
            }
            Ok(())
        };
        for (turn, v) in order.iter().enumerate() {
            for acct in 0..2 {
                c.step();
                a.write(acct, *v, turn as u8, How::Exact)?;
                want[acct][*v] = a.want[acct][*v].clone();
                check(&a, &want, "after writing")?;
            }
        }
        t.block_on(gs.checkpoint()).map_err(|e| format!("{:?}", e))?;
        t.block_on(gs.commit()).map_err(|e| format!("{:?}", e))?;
        check(&a, &want, "after committing")?;
        c.state(&(gap, order));
    }
    Ok(())
}

/// Writes of every kind, saved, committed and rewound.
fn life(c: &mut Ctx, s: &mut Store, first: u32, sizes: &[u32]) -> Result<(), String> {
    let n = sizes.len();
    let mut gs = s.gs.clone();
    let t = s.tokio.clone();
    let mut a = Accounts::new(s, first, sizes);
    a.check_reads()?;
    for acct in 0..2 {
        for var in 0..n {
            c.step();
            a.write(acct, var, 1, How::Exact)?;
            a.bad_write(acct, var)?;
            a.check()?;
        }
    }
    a.check_reads()?;
    let committed = a.want.clone();
    t.block_on(gs.checkpoint()).map_err(|e| format!("{:?}", e))?;
    let (layer, _) = t.block_on(gs.commit()).map_err(|e| format!("{:?}", e))?;
    a.check()?;
    for acct in 0..2 {
        for var in (0..n).rev() {
            for (turn, how) in [(2, How::Longer), (3, How::I32), (4, How::I64)] {
                if how == How::I32 && sizes[var] > 4 || how == How::I64 && sizes[var] > 8 {
                    continue;
                }
                c.step();
                a.write(acct, var, turn, how)?;
                a.check().map_err(|e| format!("after writing variable {} of account {} ({:?}): {}", var, acct, how, e))?;
                if var == 0 {
                    a.check_reads()?;
                }
            }
        }
        // The committed values are read as they were.
        let mut old = gs.clone();
        *old.layer_query_parameter_mut() = Some(layer);
        let then: Vec<AccountStorage> = a.addrs.iter().map(|x| t.block_on(AccountStorage::load(old.clone(), x)).unwrap()).collect();
        a.check_of(&then, &committed).map_err(|e| format!("at the layer before: {}", e))?;
    }
    t.block_on(gs.rollback()).map_err(|e| format!("{:?}", e))?;
    let saved = std::mem::replace(&mut a.want, committed.clone());
    a.check().map_err(|e| format!("after discarding: {}", e))?;
    drop(saved);
    a.write(0, n - 1, 5, How::Exact)?;
    t.block_on(gs.checkpoint()).map_err(|e| format!("{:?}", e))?;
    t.block_on(gs.commit()).map_err(|e| format!("{:?}", e))?;
    a.check().map_err(|e| format!("after committing: {}", e))?;
    t.block_on(gs.rewind(layer)).map_err(|e| format!("{:?}", e))?;
    a.want = committed;
    a.check().map_err(|e| format!("after rewinding: {}", e))?;
    c.state(&(first, sizes));
    Ok(())
}

pub fn v18(c: &mut Ctx) {
    let t = tokio();
    let gs = t.block_on(GlobalState::in_memory(no_genesis()));
    let mut store = Store { tokio: t, gs, next: 0 };
    let s = &mut store;
    let deep = c.thorough();
    // Every offset and size around the first segments, between two neighbours.
    let max = c.pick(67u32, 100);
    for pre in 0..=max {
        for size in 1..=max {
            let sizes: Vec<u32> = if pre == 0 { vec![size, 3] } else { vec![pre, size, 3] };
            c.case(|| format!("life: first 0, sizes {:?}", sizes), |c| life(c, s, 0, &sizes));
        }
    }
    // All the layouts of up to three variables, and all the writes to them.
    let some = [1u32, 2, 4, 8, 20, 31, 32, 33, 64, 65];
    for n in 1..=3usize {
        sequences(some.len(), n, &mut |v| {
            let sizes: Vec<u32> = v.iter().map(|i| some[*i]).collect();
            c.case(|| format!("writes: sizes {:?}", sizes), |c| {
                for len in 1..=if deep || n < 3 { 3 } else { 2 } {
                    writes(c, s, 0, &sizes, len)?;
                }
                Ok(())
            });
        });
    }
    // Other numbers for the first variable, more variables, longer ones.
    for first in [1u32, 2, 31, 32, 255, 256, 65535, 65536] {
        for sizes in [vec![8], vec![4, 33], vec![1, 32, 20]] {
            c.case(|| format!("life: first {}, sizes {:?}", first, sizes), |c| life(c, s, first, &sizes));
            c.case(|| format!("writes: first {}, sizes {:?}", first, sizes), |c| writes(c, s, first, &sizes, 2));
        }
    }
    let many = [vec![1u32; 70], vec![32; 20], vec![33; 20], vec![20; 40], vec![8; 300], vec![4; 256], (1..=60).collect(), (1..=60).rev().collect()];
    for sizes in many {
        c.case(|| format!("life: first 0, {} variables {:?}", sizes.len(), sizes), |c| life(c, s, 0, &sizes));
    }
    // Segments whose numbers need more bytes.
    for near in [1u32 << 13, 1 << 21, 1 << 24] {
        for gap in [near - 40, near - 8, near - 7, near, near + 24] {
            c.case(|| format!("variables {} bytes apart", gap), |c| far(c, s, gap));
        }
    }
    for big in [255u32, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 8159, 8160, 8161, 8191, 8192, 8193, 10000, 20000, 32767, 32768, 65535] {
        for sizes in [vec![big, 8], vec![8, big, 4], vec![big, big, 1], vec![1, 31, big, 33]] {
            c.case(|| format!("life: first 0, sizes {:?}", sizes), |c| life(c, s, 0, &sizes));
        }
    }
}
