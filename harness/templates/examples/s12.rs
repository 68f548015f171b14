// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S12 {
    #[storage]
    struct Storage {
        f0: svm_sdk::Amount,
        f1: svm_sdk::Address,
        f2: [svm_sdk::Amount; 3],
        f3: bool,
        f4: [svm_sdk::Address; 2],
        f5: svm_sdk::Amount,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(v: svm_sdk::Amount) {
        Storage::set_f0(v);
    }

    #[endpoint]
    fn get_f0() -> svm_sdk::Amount {
        Storage::get_f0()
    }

    #[endpoint]
    fn set_f1(v: svm_sdk::Address) {
        Storage::set_f1(&v);
    }

    #[endpoint]
    fn get_f1() -> svm_sdk::Address {
        Storage::get_f1()
    }

    #[endpoint]
    fn set_f2(i: u32, v: svm_sdk::Amount) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> svm_sdk::Amount {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(v: bool) {
        Storage::set_f3(v);
    }

    #[endpoint]
    fn get_f3() -> bool {
        Storage::get_f3()
    }

    #[endpoint]
    fn set_f4(i: u32, v: svm_sdk::Address) {
        Storage::set_f4(i as usize, &v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> svm_sdk::Address {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(v: svm_sdk::Amount) {
        Storage::set_f5(v);
    }

    #[endpoint]
    fn get_f5() -> svm_sdk::Amount {
        Storage::get_f5()
    }

}
