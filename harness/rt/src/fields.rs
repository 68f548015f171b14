//! V23: accounts and templates come back as they were stored.
//!
//! Every combination of border values of the fields of an account, every
//! sequence of changes to them, every combination of the sections of a template
//! and every sequence of changes to these, on the real storage, saved,
//! committed, rewound and read at the layer they were committed.

use std::collections::HashMap;
use std::sync::Arc;

use svm_codec::Codec;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::{compute_account_addr, PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;
use vh_core::{no_panic, product, sequences, Ctx};

use crate::admit;
use crate::env::*;

struct Store {
    t: Arc<Tokio>,
    gs: GlobalState,
    next: u64,
}

impl Store {
    fn numbered<T: From<[u8; 20]>>(&self, last: u8) -> T {
        let mut b = [0xDD; 20];
        b[..8].copy_from_slice(&self.next.to_le_bytes());
        b[19] = last;
        T::from(b)
    }
    fn seal(&mut self) -> Result<Layer, String> {
        self.t.block_on(self.gs.checkpoint()).map_err(|e| format!("{:?}", e))?;
        Ok(self.t.block_on(self.gs.commit()).map_err(|e| format!("{:?}", e))?.0)
    }
}

fn err<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}

#[derive(Clone, Debug, PartialEq)]
struct Fields {
    name: String,
    template: TemplateAddr,
    balance: u64,
    counter: u128,
}

fn read(t: &Tokio, a: &AccountStorage) -> Result<Fields, String> {
    t.block_on(async {
        Ok(Fields { name: a.name().await.map_err(err)?, template: a.template_addr().await.map_err(err)?, balance: a.balance().await.map_err(err)?, counter: a.counter().await.map_err(err)? })
    })
}

fn expect(t: &Tokio, a: &AccountStorage, want: &Fields, when: &str) -> Result<(), String> {
    let got = read(t, a).map_err(|e| format!("{}: {}", when, e))?;
    if got != *want {
        return Err(format!("{}: {:?}, not {:?}", when, got, want));
    }
    Ok(())
}

fn names() -> Vec<String> {
    vec!["".into(), "a".into(), "@name".into(), "\0".into(), "é\u{10FFFF}".into(), " x ".into(), "n".repeat(254), "n".repeat(255)]
}

const BALANCES: &[u64] = &[0, 1, 255, 256, u32::MAX as u64, 1 << 32, 0x0102_0304_0506_0708, i64::MAX as u64, 1 << 63, u64::MAX];
const COUNTERS: &[u128] = &[0, 1, 255, 1 << 32, u64::MAX as u128, 1 << 64, 0x0102_0304_0506_0708_090A_0B0C_0D0E_0F10, i128::MAX as u128, 1 << 127, u128::MAX];

fn layouts(n: usize) -> DataSection {
    let mut d = DataSection::with_capacity(n);
    for i in 0..n {
        d.add_layout(Layout::Fixed(FixedLayout::from_byte_sizes(10 * i as u32, &[4, 1 + i as u32, 32])));
    }
    d
}

fn account(c: &mut Ctx, s: &mut Store, name: &str, n_layouts: usize, balance: u64, counter: u128) -> Result<(), String> {
    s.next += 1;
    let taddr: TemplateAddr = s.numbered(0);
    let code = CodeSection::new(CodeKind::Wasm, vec![1, 2], 0, GasMode::Fixed, 0);
    let tpl = Template::new(code, layouts(n_layouts), CtorsSection::new(vec![]));
    s.t.block_on(TemplateStorage::create(s.gs.clone(), &taddr, tpl.sections().clone(), Sections::default())).map_err(err)?;
    let addrs: Vec<Address> = vec![s.numbered(1), s.numbered(2), s.numbered(3)];
    let (t, gs) = (s.t.clone(), s.gs.clone());
    let make = |a: &Address, f: &Fields| t.block_on(AccountStorage::create(gs.clone(), a, f.name.clone(), f.template, f.balance, f.counter)).map_err(err);
    let other = Fields { name: "other".into(), template: taddr, balance: 5, counter: 6 };
    let want = Fields { name: name.into(), template: taddr, balance, counter };
    // One account before, the one in question, one without a template.
    let o = make(&addrs[0], &other)?;
    let w = make(&addrs[1], &want)?;
    let stub = Fields { template: TemplateAddr::stub(), ..want.clone() };
    let st = t.block_on(AccountStorage::create_stub(gs.clone(), &addrs[2], name.into(), balance, counter)).map_err(err)?;
    c.steps(3);
    let all = |when: &str| -> Result<(), String> {
        expect(&t, &o, &other, when)?;
        expect(&t, &w, &want, when)?;
        expect(&t, &st, &stub, when)?;
        let l = t.block_on(AccountStorage::load(gs.clone(), &addrs[1])).map_err(|e| format!("{}: loading: {:?}", when, e))?;
        expect(&t, &l, &want, when)?;
        let ts = l.template_storage().map_err(err)?;
        let sections = t.block_on(ts.sections()).map_err(err)?;
        if sections != *tpl.sections() {
            return Err(format!("{}: the template of the account has the sections {:?}, not {:?}", when, sections, tpl.sections()));
        }
        // The variables are those of the first layout.
        if n_layouts > 0 {
            let n = t.block_on(l.get_var_vec(2)).map_err(err)?.len();
            if n != 32 {
                return Err(format!("{}: variable 2 has {} bytes", when, n));
            }
        }
        Ok(())
    };
    all("after creating")?;
    t.block_on(s.gs.checkpoint()).map_err(err)?;
    all("after saving")?;
    t.block_on(s.gs.commit()).map_err(err)?;
    all("after committing")?;
    c.state(&(name, n_layouts, balance, counter));
    Ok(())
}

/// Changes of two accounts: (account, Ok(balance) or Err(counter)).
type Change = (usize, Result<u64, u128>);

fn changes(c: &mut Ctx, s: &mut Store, seq: &[Change]) -> Result<(), String> {
    s.next += 1;
    let taddr: TemplateAddr = s.numbered(0);
    let t = s.t.clone();
    t.block_on(put_template(&s.gs, &taddr, &[4]));
    let addrs: Vec<Address> = vec![s.numbered(1), s.numbered(2)];
    let mut want: Vec<Fields> = vec![];
    let mut accts = vec![];
    for (i, a) in addrs.iter().enumerate() {
        accts.push(t.block_on(put_account(&s.gs, a, &taddr, 10 + i as u64, 20 + i as u128)));
        want.push(Fields { name: a.to_string(), template: taddr, balance: 10 + i as u64, counter: 20 + i as u128 });
    }
    let first = s.seal()?;
    let start = want.clone();
    // Saved after the first change, discarded after all of them.
    let mut saved = want.clone();
    for (k, (a, ch)) in seq.iter().enumerate() {
        c.step();
        match ch {
            Ok(b) => {
                t.block_on(accts[*a].set_balance(*b)).map_err(err)?;
                want[*a].balance = *b;
            }
            Err(n) => {
                t.block_on(accts[*a].set_counter(*n)).map_err(err)?;
                want[*a].counter = *n;
            }
        }
        for i in 0..2 {
            expect(&t, &accts[i], &want[i], &format!("account {} after {:?}", i, &seq[..=k]))?;
        }
        let mut old = s.gs.clone();
        *old.layer_query_parameter_mut() = Some(first);
        for i in 0..2 {
            let l = t.block_on(AccountStorage::load(old.clone(), &addrs[i])).map_err(err)?;
            expect(&t, &l, &start[i], "at the layer before")?;
        }
        if k == 0 {
            t.block_on(s.gs.checkpoint()).map_err(err)?;
            saved = want.clone();
        }
    }
    t.block_on(s.gs.rollback()).map_err(err)?;
    for i in 0..2 {
        expect(&t, &accts[i], &saved[i], "after discarding what wasn't saved")?;
    }
    s.seal()?;
    for i in 0..2 {
        expect(&t, &accts[i], &saved[i], "after committing")?;
    }
    t.block_on(s.gs.rewind(first)).map_err(err)?;
    for i in 0..2 {
        expect(&t, &accts[i], &start[i], "after rewinding")?;
    }
    c.state(&format!("{:?}", seq));
    Ok(())
}

fn cores() -> Vec<Vec<Section>> {
    let code = |n: usize, flags, v| CodeSection::new(CodeKind::Wasm, (0..n).map(|i| (i * 7 + n) as u8).collect(), flags, GasMode::Fixed, v);
    let ctors = |v: &[&str]| CtorsSection::new(v.iter().map(|s| s.to_string()).collect());
    let full = "c".repeat(255);
    vec![
        vec![code(0, 0, 0).into(), layouts(0).into(), ctors(&[]).into()],
        vec![code(1, 1, 1).into(), layouts(1).into(), ctors(&["a"]).into()],
        vec![code(300, u64::MAX, u32::MAX).into(), layouts(2).into(), ctors(&["a", "", "é"]).into()],
        vec![code(70_000, 1 << 63, 1 << 31).into(), DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(7, &[1; 255]))).into(), ctors(&[&full, "a", "a"]).into()],
        vec![code(2, 2, 256).into(), layouts(1).into(), ctors(&["x"; 255]).into()],
    ]
}

fn noncores() -> Vec<Vec<Section>> {
    let header = |n: &str| -> Section { HeaderSection::new(0x0102_0304, n.into(), "d".repeat(255)).into() };
    let deploy = |b: u8| -> Section { DeploySection::new(TransactionId::repeat(b), Layer(u64::MAX - b as u64), Address::repeat(b), TemplateAddr::repeat(b + 1)).into() };
    vec![vec![], vec![header("")], vec![header("né")], vec![deploy(1)], vec![deploy(2), header("x")]]
}

fn sections(v: &[Section]) -> Sections {
    let mut s = Sections::with_capacity(v.len());
    for x in v {
        s.insert(x.clone());
    }
    s
}

/// One template gets the changes, its neighbours keep what they have.
fn template(c: &mut Ctx, s: &mut Store, core: usize, noncore: usize, seq: &[(bool, usize)]) -> Result<(), String> {
    s.next += 1;
    let (cs, ns) = (cores(), noncores());
    let t = s.t.clone();
    let addrs: Vec<TemplateAddr> = vec![s.numbered(0), s.numbered(1), s.numbered(2)];
    let mut want = vec![(1, 1), (core, noncore), (2, 4)];
    for (a, (i, j)) in addrs.iter().zip(want.iter()) {
        t.block_on(TemplateStorage::create(s.gs.clone(), a, sections(&cs[*i]), sections(&ns[*j]))).map_err(err)?;
    }
    c.steps(3);
    let check = |gs: &GlobalState, want: &[(usize, usize)], when: &str| -> Result<(), String> {
        for (a, (i, j)) in addrs.iter().zip(want.iter()) {
            let ts = TemplateStorage::load(gs.clone(), a).map_err(err)?;
            let got = t.block_on(ts.sections()).map_err(|e| format!("{}: {:?}", when, e))?;
            let mut w = cs[*i].clone();
            w.extend(ns[*j].iter().cloned());
            if got != sections(&w) {
                return Err(format!("{}: the sections are {:?}, not {:?}", when, got, w));
            }
        }
        Ok(())
    };
    check(&s.gs, &want, "after storing")?;
    let first = s.seal()?;
    let start = want.clone();
    check(&s.gs, &want, "after committing")?;
    for (k, (is_core, i)) in seq.iter().enumerate() {
        c.step();
        let mut ts = TemplateStorage::load(s.gs.clone(), &addrs[1]).map_err(err)?;
        if *is_core {
            t.block_on(ts.set_core(&sections(&cs[*i]))).map_err(err)?;
            want[1].0 = *i;
        } else {
            t.block_on(ts.set_noncore(&sections(&ns[*i]))).map_err(err)?;
            want[1].1 = *i;
        }
        check(&s.gs, &want, &format!("after {:?}", &seq[..=k]))?;
        let mut old = s.gs.clone();
        *old.layer_query_parameter_mut() = Some(first);
        check(&old, &start, "at the layer before")?;
    }
    s.seal()?;
    check(&s.gs, &want, "after committing the changes")?;
    t.block_on(s.gs.rewind(first)).map_err(err)?;
    check(&s.gs, &start, "after rewinding")?;
    c.state(&(core, noncore, seq));
    Ok(())
}

/// A template sent to the runtime is stored with all its sections.
fn deployed(c: &mut Ctx, order: &[usize], ctors: usize, n_layouts: usize, header: usize) -> Result<(), String> {
    let t = tokio();
    let gs = t.block_on(GlobalState::in_memory(no_genesis()));
    let mut rt = Runtime::new(t.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
    let code = CodeSection::new_fixed(wat::parse_str(admit::TINY).unwrap(), 3);
    let addr = compute_template_addr(&code);
    let all = ["ctor", "absent", "é"];
    let mut list: Vec<Section> = vec![code.into(), layouts(n_layouts).into(), CtorsSection::new(all[..ctors].iter().map(|s| s.to_string()).collect()).into()];
    if header > 0 {
        list.push(HeaderSection::new(header as u32, "N".repeat(header), "D".into()).into());
    }
    let list: Vec<Section> = order.iter().filter(|i| **i < list.len()).map(|i| list[*i].clone()).collect();
    let mut e = svm_codec::SectionsEncoder::with_capacity(list.len());
    e.encode(&sections(&list));
    let msg = e.finish();
    no_panic(|| rt.validate_deploy(&msg))?.map_err(|e| format!("should be valid: {}", e))?;
    let env = Envelope::new(Address::repeat(9), 0, 0, Gas::with(1 << 60), 0);
    let r = no_panic(|| rt.deploy(&env, &msg, &Context::default()))?;
    c.step();
    if !r.success || r.addr != Some(addr) {
        return Err(format!("the receipt is {:?}, the address should be {:?}", r, addr));
    }
    let ts = TemplateStorage::load(gs, &addr).map_err(err)?;
    let got = t.block_on(ts.sections()).map_err(err)?;
    for x in &list {
        if got.try_get(x.kind()) != Some(x) {
            return Err(format!("{:?} is stored as {:?}", x, got.try_get(x.kind())));
        }
    }
    c.state(&(order, ctors, n_layouts, header));
    Ok(())
}

pub fn v23(c: &mut Ctx) {
    let t = tokio();
    let gs = t.block_on(GlobalState::in_memory(no_genesis()));
    let mut store = Store { t, gs, next: 0 };
    let s = &mut store;
    // Every combination of the fields.
    let names = names();
    product(&[names.len(), 3, BALANCES.len(), COUNTERS.len()], &mut |v| {
        let (n, l, b, k) = (&names[v[0]], v[1], BALANCES[v[2]], COUNTERS[v[3]]);
        c.case(|| format!("account: name {:?}, {} layouts, balance {}, counter {}", n, l, b, k), |c| account(c, s, n, l, b, k));
    });
    // Every sequence of changes.
    let mut ops: Vec<Change> = vec![];
    for a in 0..2 {
        ops.extend([0, 1 << 32, u64::MAX].iter().map(|b| (a, Ok(*b))));
        ops.extend([0, 1 << 64, u128::MAX].iter().map(|n| (a, Err(*n))));
    }
    for len in 1..=c.pick(3usize, 5) {
        sequences(ops.len(), len, &mut |v| {
            let seq: Vec<Change> = v.iter().map(|i| ops[*i].clone()).collect();
            c.case(|| format!("changes: {:?}", seq), |c| changes(c, s, &seq));
        });
    }
    for a in 0..2 {
        for b in BALANCES {
            for n in COUNTERS {
                for flip in [false, true] {
                    let mut seq: Vec<Change> = vec![(a, Ok(*b)), (a, Err(*n))];
                    if flip {
                        seq.reverse();
                    }
                    c.case(|| format!("changes: {:?}", seq), |c| changes(c, s, &seq));
                }
            }
        }
    }
    // Every combination of sections and every sequence of changes.
    let (nc, nn) = (cores().len(), noncores().len());
    let ops: Vec<(bool, usize)> = (0..nc).map(|i| (true, i)).chain((0..nn).map(|i| (false, i))).collect();
    product(&[nc, nn], &mut |x| {
        for len in 0..=c.pick(2usize, 3) {
            sequences(ops.len(), len, &mut |v| {
                let seq: Vec<(bool, usize)> = v.iter().map(|i| ops[*i]).collect();
                c.case(|| format!("template: core {}, others {}, changes {:?}", x[0], x[1], seq), |c| template(c, s, x[0], x[1], &seq));
            });
        }
    });
    // Every order of the sections of a message.
    sequences(4, 4, &mut |o| {
        if (0..4).any(|i| !o.contains(&i)) {
            return;
        }
        for ctors in 0..=3 {
            for l in 0..=2 {
                for header in [0, 1, 255] {
                    c.case(|| format!("deployed: order {:?}, {} constructors, {} layouts, header {}", o, ctors, l, header), |c| deployed(c, o, ctors, l, header));
                }
            }
        }
    });
    // Different codes have different addresses, and so have accounts of different templates.
    c.case(
        || "addresses".to_string(),
        |c| {
            let base: Vec<u8> = (0..c.pick(150u32, 400)).map(|i| (i * 37 + 11) as u8).collect();
            let mut codes = vec![];
            for n in 0..=base.len() {
                codes.push(base[..n].to_vec());
                codes.push([&base[..n], &[0][..], &base[n..]].concat());
                for b in 0..=255u8 {
                    if n < base.len() && base[n] != b {
                        let mut x = base.clone();
                        x[n] = b;
                        codes.push(x);
                    }
                }
            }
            let mut seen: HashMap<TemplateAddr, usize> = HashMap::new();
            let mut accts: HashMap<Address, usize> = HashMap::new();
            for (i, code) in codes.iter().enumerate() {
                c.step();
                let a = compute_template_addr(&CodeSection::new(CodeKind::Wasm, code.clone(), i as u64, GasMode::Fixed, 0));
                let again = compute_template_addr(&CodeSection::new(CodeKind::Wasm, code.clone(), 0, GasMode::Fixed, i as u32));
                if a != again {
                    return Err(format!("code {:?} has the addresses {:?} and {:?}", code, a, again));
                }
                if let Some(j) = seen.insert(a, i) {
                    if codes[j] != *code {
                        return Err(format!("codes {:?} and {:?} have the address {:?}", codes[j], code, a));
                    }
                }
                let spawn = |v, b: &[u8]| SpawnAccount::decode_bytes(&SpawnAccount::new(v, &a, "n", "c", b.to_vec()).encode_to_vec()).unwrap();
                let acct = compute_account_addr(&spawn(0, &[]));
                if let Some(j) = accts.insert(acct.clone(), i) {
                    if codes[j] != *code {
                        return Err(format!("accounts of different templates have the address {:?}", acct));
                    }
                }
            }
            // Every byte of an address counts.
            for n in 0..20 {
                for set in [seen.keys().map(|a| a.as_slice()[n]).collect::<std::collections::HashSet<u8>>(), accts.keys().map(|a| a.as_slice()[n]).collect()] {
                    if set.len() < 200 {
                        return Err(format!("byte {} of the addresses takes {} values only", n, set.len()));
                    }
                }
            }
            c.state(&"addresses");
            Ok(())
        },
    );
}
