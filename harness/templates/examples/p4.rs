// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P4 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: u16, b: bool) -> (bool, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: u16, b: i8) -> (i8, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: u16, b: u8) -> (u8, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: u16, b: i16) -> (i16, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: u16, b: u16) -> (u16, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: u16, b: i32) -> (i32, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: u16, b: u32) -> (u32, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: u16, b: i64) -> (i64, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: u16, b: u64) -> (u64, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: u16, b: Amount) -> (Amount, u16) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: u16, b: Address) -> (Address, u16) {
        (b, a)
    }

    #[endpoint]
    fn one(a: u16) -> u16 {
        a
    }

    #[endpoint]
    fn drop(_a: u16) {}

    #[endpoint]
    fn arr_1(a: [u16; 1]) -> [u16; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [u16; 2]) -> [u16; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [u16; 3]) -> [u16; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [u16; 10]) -> [u16; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [u16; 2], b: Address, c: [u16; 3], d: Amount) -> (Amount, [u16; 3], Address, [u16; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: u16, a1: i32, a2: u32, a3: i64, a4: u64, a5: Amount, a6: Address, a7: bool, a8: i8, a9: u8) -> (u8, u16, Amount) {
        (a9, a0, a5)
    }

}
