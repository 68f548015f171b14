// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P2 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: u8, b: bool) -> (bool, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: u8, b: i8) -> (i8, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: u8, b: u8) -> (u8, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: u8, b: i16) -> (i16, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: u8, b: u16) -> (u16, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: u8, b: i32) -> (i32, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: u8, b: u32) -> (u32, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: u8, b: i64) -> (i64, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: u8, b: u64) -> (u64, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: u8, b: Amount) -> (Amount, u8) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: u8, b: Address) -> (Address, u8) {
        (b, a)
    }

    #[endpoint]
    fn one(a: u8) -> u8 {
        a
    }

    #[endpoint]
    fn drop(_a: u8) {}

    #[endpoint]
    fn arr_1(a: [u8; 1]) -> [u8; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [u8; 2]) -> [u8; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [u8; 3]) -> [u8; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [u8; 10]) -> [u8; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [u8; 2], b: Address, c: [u8; 3], d: Amount) -> (Amount, [u8; 3], Address, [u8; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: u8, a1: i16, a2: u16, a3: i32, a4: u32, a5: i64, a6: u64, a7: Amount, a8: Address, a9: bool) -> (bool, u8, i64) {
        (a9, a0, a5)
    }

}
