// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P8 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: u64, b: bool) -> (bool, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: u64, b: i8) -> (i8, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: u64, b: u8) -> (u8, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: u64, b: i16) -> (i16, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: u64, b: u16) -> (u16, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: u64, b: i32) -> (i32, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: u64, b: u32) -> (u32, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: u64, b: i64) -> (i64, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: u64, b: u64) -> (u64, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: u64, b: Amount) -> (Amount, u64) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: u64, b: Address) -> (Address, u64) {
        (b, a)
    }

    #[endpoint]
    fn one(a: u64) -> u64 {
        a
    }

    #[endpoint]
    fn drop(_a: u64) {}

    #[endpoint]
    fn arr_1(a: [u64; 1]) -> [u64; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [u64; 2]) -> [u64; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [u64; 3]) -> [u64; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [u64; 10]) -> [u64; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [u64; 2], b: Address, c: [u64; 3], d: Amount) -> (Amount, [u64; 3], Address, [u64; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: u64, a1: Amount, a2: Address, a3: bool, a4: i8, a5: u8, a6: i16, a7: u16, a8: i32, a9: u32) -> (u32, u64, u8) {
        (a9, a0, a5)
    }

}
