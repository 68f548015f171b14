// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P10 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: Address, b: bool) -> (bool, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: Address, b: i8) -> (i8, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: Address, b: u8) -> (u8, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: Address, b: i16) -> (i16, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: Address, b: u16) -> (u16, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: Address, b: i32) -> (i32, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: Address, b: u32) -> (u32, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: Address, b: i64) -> (i64, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: Address, b: u64) -> (u64, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: Address, b: Amount) -> (Amount, Address) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: Address, b: Address) -> (Address, Address) {
        (b, a)
    }

    #[endpoint]
    fn one(a: Address) -> Address {
        a
    }

    #[endpoint]
    fn drop(_a: Address) {}

    #[endpoint]
    fn arr_1(a: [Address; 1]) -> [Address; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [Address; 2]) -> [Address; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [Address; 3]) -> [Address; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [Address; 10]) -> [Address; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [Address; 2], b: Address, c: [Address; 3], d: Amount) -> (Amount, [Address; 3], Address, [Address; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: Address, a1: bool, a2: i8, a3: u8, a4: i16, a5: u16, a6: i32, a7: u32, a8: i64, a9: u64) -> (u64, Address, u16) {
        (a9, a0, a5)
    }

}
