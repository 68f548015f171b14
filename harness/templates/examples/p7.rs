// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P7 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: i64, b: bool) -> (bool, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: i64, b: i8) -> (i8, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: i64, b: u8) -> (u8, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: i64, b: i16) -> (i16, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: i64, b: u16) -> (u16, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: i64, b: i32) -> (i32, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: i64, b: u32) -> (u32, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: i64, b: i64) -> (i64, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: i64, b: u64) -> (u64, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: i64, b: Amount) -> (Amount, i64) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: i64, b: Address) -> (Address, i64) {
        (b, a)
    }

    #[endpoint]
    fn one(a: i64) -> i64 {
        a
    }

    #[endpoint]
    fn drop(_a: i64) {}

    #[endpoint]
    fn arr_1(a: [i64; 1]) -> [i64; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [i64; 2]) -> [i64; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [i64; 3]) -> [i64; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [i64; 10]) -> [i64; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [i64; 2], b: Address, c: [i64; 3], d: Amount) -> (Amount, [i64; 3], Address, [i64; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: i64, a1: u64, a2: Amount, a3: Address, a4: bool, a5: i8, a6: u8, a7: i16, a8: u16, a9: i32) -> (i32, i64, i8) {
        (a9, a0, a5)
    }

}
