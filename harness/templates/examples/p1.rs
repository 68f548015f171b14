// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P1 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: i8, b: bool) -> (bool, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: i8, b: i8) -> (i8, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: i8, b: u8) -> (u8, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: i8, b: i16) -> (i16, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: i8, b: u16) -> (u16, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: i8, b: i32) -> (i32, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: i8, b: u32) -> (u32, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: i8, b: i64) -> (i64, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: i8, b: u64) -> (u64, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: i8, b: Amount) -> (Amount, i8) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: i8, b: Address) -> (Address, i8) {
        (b, a)
    }

    #[endpoint]
    fn one(a: i8) -> i8 {
        a
    }

    #[endpoint]
    fn drop(_a: i8) {}

    #[endpoint]
    fn arr_1(a: [i8; 1]) -> [i8; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [i8; 2]) -> [i8; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [i8; 3]) -> [i8; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [i8; 10]) -> [i8; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [i8; 2], b: Address, c: [i8; 3], d: Amount) -> (Amount, [i8; 3], Address, [i8; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: i8, a1: u8, a2: i16, a3: u16, a4: i32, a5: u32, a6: i64, a7: u64, a8: Amount, a9: Address) -> (Address, i8, u32) {
        (a9, a0, a5)
    }

}
