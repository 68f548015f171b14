// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S11 {
    #[storage]
    struct Storage {
        f0: [u8; 300],
        f1: [Address; 20],
        f2: u16,
        f3: [bool; 257],
        f4: [Amount; 66],
        f5: [i32; 10],
        f6: i16,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: u8) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> u8 {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(i: u32, v: Address) {
        Storage::set_f1(i as usize, &v);
    }

    #[endpoint]
    fn get_f1(i: u32) -> Address {
        Storage::get_f1(i as usize)
    }

    #[endpoint]
    fn set_f2(v: u16) {
        Storage::set_f2(v);
    }

    #[endpoint]
    fn get_f2() -> u16 {
        Storage::get_f2()
    }

    #[endpoint]
    fn set_f3(i: u32, v: bool) {
        Storage::set_f3(i as usize, v);
    }

    #[endpoint]
    fn get_f3(i: u32) -> bool {
        Storage::get_f3(i as usize)
    }

    #[endpoint]
    fn set_f4(i: u32, v: Amount) {
        Storage::set_f4(i as usize, v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> Amount {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(i: u32, v: i32) {
        Storage::set_f5(i as usize, v);
    }

    #[endpoint]
    fn get_f5(i: u32) -> i32 {
        Storage::get_f5(i as usize)
    }

    #[endpoint]
    fn set_f6(v: i16) {
        Storage::set_f6(v);
    }

    #[endpoint]
    fn get_f6() -> i16 {
        Storage::get_f6()
    }

}
