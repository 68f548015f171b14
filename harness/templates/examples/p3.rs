// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P3 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: i16, b: bool) -> (bool, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: i16, b: i8) -> (i8, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: i16, b: u8) -> (u8, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: i16, b: i16) -> (i16, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: i16, b: u16) -> (u16, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: i16, b: i32) -> (i32, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: i16, b: u32) -> (u32, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: i16, b: i64) -> (i64, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: i16, b: u64) -> (u64, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: i16, b: Amount) -> (Amount, i16) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: i16, b: Address) -> (Address, i16) {
        (b, a)
    }

    #[endpoint]
    fn one(a: i16) -> i16 {
        a
    }

    #[endpoint]
    fn drop(_a: i16) {}

    #[endpoint]
    fn arr_1(a: [i16; 1]) -> [i16; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [i16; 2]) -> [i16; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [i16; 3]) -> [i16; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [i16; 10]) -> [i16; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [i16; 2], b: Address, c: [i16; 3], d: Amount) -> (Amount, [i16; 3], Address, [i16; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: i16, a1: u16, a2: i32, a3: u32, a4: i64, a5: u64, a6: Amount, a7: Address, a8: bool, a9: i8) -> (i8, i16, u64) {
        (a9, a0, a5)
    }

}
