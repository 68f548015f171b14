// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P5 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: i32, b: bool) -> (bool, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: i32, b: i8) -> (i8, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: i32, b: u8) -> (u8, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: i32, b: i16) -> (i16, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: i32, b: u16) -> (u16, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: i32, b: i32) -> (i32, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: i32, b: u32) -> (u32, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: i32, b: i64) -> (i64, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: i32, b: u64) -> (u64, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: i32, b: Amount) -> (Amount, i32) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: i32, b: Address) -> (Address, i32) {
        (b, a)
    }

    #[endpoint]
    fn one(a: i32) -> i32 {
        a
    }

    #[endpoint]
    fn drop(_a: i32) {}

    #[endpoint]
    fn arr_1(a: [i32; 1]) -> [i32; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [i32; 2]) -> [i32; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [i32; 3]) -> [i32; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [i32; 10]) -> [i32; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [i32; 2], b: Address, c: [i32; 3], d: Amount) -> (Amount, [i32; 3], Address, [i32; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: i32, a1: u32, a2: i64, a3: u64, a4: Amount, a5: Address, a6: bool, a7: i8, a8: u8, a9: i16) -> (i16, i32, Address) {
        (a9, a0, a5)
    }

}
