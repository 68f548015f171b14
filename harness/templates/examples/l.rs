// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};
use svm_sdk_std::{StringBuilder, ToString as Text};

#[template]
mod L {
    #[storage]
    struct Storage {
        n: u32,
        who: Address,
        log: [u64; 2],
    }

    #[ctor]
    fn initialize() {}

    #[ctor]
    fn with_n(n: u32) {
        Storage::set_n(n);
    }

    fn bump(by: u32) -> u32 {
        let n = Storage::get_n() + by;
        Storage::set_n(n);
        n
    }

    #[endpoint]
    fn add(by: u32) -> u32 {
        bump(by)
    }

    #[endpoint]
    fn add_twice(by: u32) -> (u32, u32) {
        (bump(by), bump(by))
    }

    #[endpoint]
    fn keep_if(b: bool, who: Address, v: u64) {
        Storage::set_who(&who);
        Storage::set_log(1, v);
        if !b {
            panic!();
        }
        Storage::set_n(7);
    }

    #[endpoint]
    fn log_number(n: u32) {
        svm_sdk::log(&Text::to_string(&n));
    }

    #[endpoint]
    fn log_amount(n: Amount) {
        svm_sdk::log(&Text::to_string(&n));
    }

    #[endpoint]
    fn log_address(a: Address) {
        svm_sdk::log(&Text::to_string(&a));
    }

    #[endpoint]
    fn log_built(a: u8, b: u64) -> u64 {
        let mut sb = StringBuilder::with_capacity(64);
        let a = Text::to_string(&a);
        let b2 = Text::to_string(&b);
        sb.push_str(&a);
        sb.push_str(&b2);
        svm_sdk::log(&sb.build());
        svm_sdk::log(&a);
        b
    }

    #[endpoint]
    fn log_host(code: u8, fail: bool) {
        use svm_sdk::traits::Host;
        svm_sdk::host::ExtHost.log("first", code);
        svm_sdk::host::ExtHost.log("", code);
        if fail {
            panic!();
        }
        svm_sdk::host::ExtHost.log("and third", code);
    }
}
