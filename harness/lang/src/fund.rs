//! V27: the coins that come with a call, and the hooks that a template has for them.
//! One template written with the SDK's macros, linked here with the SDK's mock.

use svm_sdk_mock::host::MockHost;
use svm_sdk_mock::storage::MockStorage;
use svm_sdk_mock::template;
use svm_sdk_mock::traits::{ByteSize, Encoder};
use svm_sdk_mock::{Address, Amount, LayerId, ReturnData};
use vh_core::{hex, no_panic, sequences, Ctx};

#[template]
mod Template {
    #[storage]
    struct Store {
        runs: u32,
        coins: Amount,
        by_a: u8,
        by_b: i16,
        paid: bool,
        last: [u64; 2],
        who: Address,
    }

    // Declared before the functions that use it.
    #[fundable_hook]
    fn hook_a() {
        let value = Node::value();
        Node.log("hook_a", 1);
        Store::set_by_a(Store::get_by_a() + 1);
        Store::set_coins(value);
    }

    #[fundable]
    #[ctor]
    fn init() {
        vf_log("init", 10);
        if Store::get_runs() > 250 {
            return;
        }
        Store::set_runs(Store::get_runs() + 1);
    }

    #[ctor]
    fn init_free(x: u32) {
        Node.log("init_free", 11);
        Store::set_runs(Store::get_runs() + x);
    }

    #[fundable(hook_b)]
    #[ctor]
    fn init_b(x: Amount) -> Amount {
        Node.log("init_b", 12);
        Store::set_last(1, x.0);
        Store::get_coins()
    }

    #[fundable]
    #[endpoint]
    fn deposit(x: u64, y: u8) -> u64 {
        Node.log("deposit", 13);
        Store::set_last(0, x);
        x + y as u64 + Store::get_runs() as u64
    }

    #[fundable(hook_a)]
    #[endpoint]
    fn deposit_a(x: bool, who: Address) -> (bool, u8) {
        Node.log("deposit_a", 14);
        Store::set_who(&who);
        (x != Store::get_paid(), Store::get_by_a())
    }

    #[fundable(hook_b)]
    #[endpoint(doc = "funds through \"hook_b\"")]
    fn deposit_b() -> i16 {
        vf_log("deposit_b", 15);
        if Store::get_paid() {
            return Store::get_by_b();
        }
        helper(Store::get_by_b())
    }

    #[inline]
    fn helper(n: i16) -> i16 {
        n + 1
    }

    #[endpoint]
    fn plain(x: i16) -> Amount {
        Node.log("plain", 16);
        Store::set_by_b(x);
        Store::get_coins()
    }

    #[endpoint]
    fn nothing() {}

    #[fundable(deposit_hook)]
    #[endpoint]
    fn nothing_funded() {}

    #[fundable_hook(default)]
    fn take() {
        Node.log("take", 2);
        let n = Store::get_runs();
        Store::set_runs(n + 100);
        Store::set_coins(Node::value());
    }

    #[fundable_hook]
    fn hook_b() {
        Node.log("hook_b", 3);
        Store::set_by_b(Store::get_by_b() - 1);
        Store::set_paid(true);
    }

    #[fundable_hook]
    fn deposit_hook() {
        Node.log("deposit_hook", 4);
        Store::set_last(0, Node::value().0);
    }
}

fn vf_log(s: &str, code: u8) {
    MockHost::log(s, code)
}

/// What the template's storage holds, and what has been logged.
#[derive(Clone, Debug, PartialEq, Hash, Default)]
struct Model {
    runs: u32,
    coins: u64,
    by_a: u8,
    by_b: i16,
    paid: bool,
    last: [u64; 2],
    who: [u8; 20],
    logs: Vec<(String, u8)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Ret {
    None,
    U64(u64),
    I16(i16),
    Amount(u64),
    Pair(bool, u8),
}

impl Model {
    fn log(&mut self, s: &str, code: u8) {
        self.logs.push((s.to_string(), code));
    }

    fn take(&mut self, value: u64) {
        self.log("take", 2);
        self.runs += 100;
        self.coins = value;
    }

    fn hook_b(&mut self) {
        self.log("hook_b", 3);
        self.by_b -= 1;
        self.paid = true;
    }

    fn call(&mut self, f: usize, value: u64, k: usize) -> Ret {
        let funded = value > 0;
        match f {
            0 => {
                if funded {
                    self.take(value);
                }
                self.log("init", 10);
                if self.runs <= 250 {
                    self.runs += 1;
                }
                Ret::None
            }
            1 => {
                self.log("init_free", 11);
                self.runs += [3, 70000][k];
                Ret::None
            }
            2 => {
                if funded {
                    self.hook_b();
                }
                self.log("init_b", 12);
                self.last[1] = NUMBERS[k];
                Ret::Amount(self.coins)
            }
            3 => {
                if funded {
                    self.take(value);
                }
                self.log("deposit", 13);
                self.last[0] = NUMBERS[k];
                Ret::U64(NUMBERS[k] + 5 + self.runs as u64)
            }
            4 => {
                if funded {
                    self.log("hook_a", 1);
                    self.by_a += 1;
                    self.coins = value;
                }
                self.log("deposit_a", 14);
                self.who = [k as u8 * 7 + 1; 20];
                Ret::Pair((k == 1) != self.paid, self.by_a)
            }
            5 => {
                if funded {
                    self.hook_b();
                }
                self.log("deposit_b", 15);
                Ret::I16(if self.paid { self.by_b } else { self.by_b + 1 })
            }
            6 => {
                self.log("plain", 16);
                self.by_b = [-2, 300][k];
                Ret::Amount(self.coins)
            }
            7 => Ret::None,
            8 => {
                if funded {
                    self.log("deposit_hook", 4);
                    self.last[0] = value;
                }
                Ret::None
            }
            _ => unreachable!(),
        }
    }
}

const NUMBERS: [u64; 2] = [9, 1 << 40];
/// Each of the amounts in shorter sequences, the first ones in longer ones.
const VALUES: [u64; 10] = [0, 1, 1 << 40, 2, 255, 256, 65536, 1 << 32, 1 << 63, u64::MAX];
const FUNCS: [(&str, extern "C" fn()); 9] = [
    ("init", init),
    ("init_free", init_free),
    ("init_b", init_b),
    ("deposit", deposit),
    ("deposit_a", deposit_a),
    ("deposit_b", deposit_b),
    ("plain", plain),
    ("nothing", nothing),
    ("nothing_funded", nothing_funded),
];

fn bytes_of<T: Encoder + ByteSize>(args: &[T]) -> Vec<u8> {
    let n: usize = args.iter().map(|a| a.byte_size()).sum();
    let mut v: svm_sdk_mock::Vec<u8> = svm_sdk_mock::Vec::with_capacity(n + 1);
    args.iter().for_each(|a| a.encode(&mut v));
    v.as_slice().to_vec()
}

fn input(f: usize, k: usize) -> Vec<u8> {
    match f {
        1 => bytes_of(&[[3u32, 70000][k]]),
        2 => bytes_of(&[Amount(NUMBERS[k])]),
        3 => [bytes_of(&[NUMBERS[k]]), bytes_of(&[5u8])].concat(),
        4 => [bytes_of(&[k == 1]), bytes_of(&[Address::repeat(k as u8 * 7 + 1)])].concat(),
        6 => bytes_of(&[[-2i16, 300][k]]),
        _ => Vec::new(),
    }
}

fn returned(f: usize) -> Result<Ret, String> {
    let b = match MockHost::returndata() {
        None => return Ok(Ret::None),
        Some(b) => b,
    };
    let b: &'static [u8] = b.leak();
    no_panic(|| {
        let mut r = ReturnData::new(b);
        match f {
            2 | 6 => Ret::Amount(r.next_1::<Amount>().0),
            3 => Ret::U64(r.next_1()),
            4 => {
                let (x, y): (bool, u8) = r.next_2();
                Ret::Pair(x, y)
            }
            5 => Ret::I16(r.next_1()),
            _ => Ret::U64(b.len() as u64),
        }
    })
    .map_err(|e| format!("{} returns 0x{}, which can't be read: {}", FUNCS[f].0, hex(b), e))
}

fn stored() -> Model {
    let mut who = [0; 20];
    who.copy_from_slice(Store::get_who().as_slice());
    Model {
        runs: Store::get_runs(),
        coins: Store::get_coins().0,
        by_a: Store::get_by_a(),
        by_b: Store::get_by_b(),
        paid: Store::get_paid(),
        last: [Store::get_last(0), Store::get_last(1)],
        who,
        logs: MockHost::logs(),
    }
}

fn clear() {
    MockStorage::clear();
    MockHost::reset();
    // Variables that are wider than 32 bits have to exist.
    Store::set_coins(Amount(0));
    Store::set_last(0, 0);
    Store::set_last(1, 0);
    Store::set_who(&Address::repeat(0));
    MockHost::set_target(Address::repeat(9));
    MockHost::set_principal(Address::repeat(8));
    MockHost::set_layer_id(LayerId(4));
}

/// A call: function, value, arguments.
type Call = (usize, usize, usize);

fn run(c: &mut Ctx, calls: &[Call]) -> Result<(), String> {
    clear();
    let mut m = Model::default();
    for (i, &(f, v, k)) in calls.iter().enumerate() {
        let last = i + 1 == calls.len();
        let want = m.call(f, VALUES[v], k);
        MockHost::set_raw_calldata(&input(f, k));
        MockHost::set_value(Amount(VALUES[v]));
        MockHost::set_returndata(&[]);
        c.step();
        FUNCS[f].1();
        if !last {
            continue;
        }
        c.state(&m);
        let got = stored();
        if got != m {
            return Err(format!("after {} with {} coins: {:?}, expected {:?}", FUNCS[f].0, VALUES[v], got, m));
        }
        // The mock keeps what was returned before; it has been emptied above.
        let r = match MockHost::returndata() {
            Some(b) if b.is_empty() => Ret::None,
            _ => returned(f)?,
        };
        if r != want {
            return Err(format!("{} with {} coins returns {:?}, expected {:?}", FUNCS[f].0, VALUES[v], r, want));
        }
        if MockHost::value() != Amount(VALUES[v]) {
            return Err("the value of the call has changed".into());
        }
    }
    Ok(())
}

fn meta() -> Result<(), String> {
    let raw = raw_meta();
    let j: serde_json::Value = serde_json::from_str(&raw).map_err(|e| e.to_string())?;
    let api = j["api"].as_array().ok_or("no API")?;
    let mut left: Vec<(&str, bool, bool)> = vec![
        ("init", true, true),
        ("init_free", true, false),
        ("init_b", true, true),
        ("deposit", false, true),
        ("deposit_a", false, true),
        ("deposit_b", false, true),
        ("plain", false, false),
        ("nothing", false, false),
        ("nothing_funded", false, true),
    ];
    for f in api {
        let name = f["name"].as_str().ok_or("no name")?;
        let at = left.iter().position(|x| x.0 == name).ok_or(format!("{} is in the API", name))?;
        let (_, ctor, fundable) = left.remove(at);
        let doc = if name == "deposit_b" { "funds through \"hook_b\"" } else { "" };
        if f["doc"] != doc || f["is_ctor"] != serde_json::Value::Bool(ctor) || f["is_fundable"] != serde_json::Value::Bool(fundable) {
            return Err(format!("the API says of {}: {}", name, f));
        }
    }
    match left.first() {
        Some(x) => Err(format!("{} isn't in the API", x.0)),
        None => Ok(()),
    }
}

pub fn v27(c: &mut Ctx) {
    c.case(|| "meta".to_string(), |_| meta());
    // (the memory that templates take is never given back, which limits the longest)
    let spaces = [(VALUES.len(), 1..4), (3, 4..5), (2, 5..6)];
    for (values, depths) in spaces[..c.pick(2, 3)].iter().cloned() {
        let n = FUNCS.len() * values * 2;
        let call = |i: usize| (i / 2 / values, i / 2 % values, i % 2);
        // One case per first call.
        for first in (0..n).filter(|i| useful(call(*i))) {
            c.case(|| format!("{:?} calls with {} amounts, from {:?}", depths, values, (FUNCS[call(first).0].0, VALUES[call(first).1], call(first).2)), |c| {
                let mut bad = None;
                for len in depths.clone() {
                    sequences(n, len - 1, &mut |rest| {
                        if bad.is_some() || rest.iter().any(|&i| !useful(call(i))) {
                            return;
                        }
                        let calls: Vec<Call> = [first].iter().chain(rest).map(|&i| call(i)).collect();
                        if let Err(e) = run(c, &calls) {
                            bad = Some(format!("{:?}: {}", calls.iter().map(|x| (FUNCS[x.0].0, VALUES[x.1], x.2)).collect::<Vec<_>>(), e));
                        }
                    });
                }
                bad.map_or(Ok(()), Err)
            });
        }
    }
}

/// Functions without parameters are called with one choice of arguments.
fn useful((f, _, k): Call) -> bool {
    k == 0 || matches!(f, 1 | 2 | 3 | 4 | 6)
}
