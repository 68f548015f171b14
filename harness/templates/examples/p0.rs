// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P0 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: bool, b: bool) -> (bool, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: bool, b: i8) -> (i8, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: bool, b: u8) -> (u8, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: bool, b: i16) -> (i16, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: bool, b: u16) -> (u16, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: bool, b: i32) -> (i32, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: bool, b: u32) -> (u32, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: bool, b: i64) -> (i64, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: bool, b: u64) -> (u64, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: bool, b: Amount) -> (Amount, bool) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: bool, b: Address) -> (Address, bool) {
        (b, a)
    }

    #[endpoint]
    fn one(a: bool) -> bool {
        a
    }

    #[endpoint]
    fn drop(_a: bool) {}

    #[endpoint]
    fn arr_1(a: [bool; 1]) -> [bool; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [bool; 2]) -> [bool; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [bool; 3]) -> [bool; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [bool; 10]) -> [bool; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [bool; 2], b: Address, c: [bool; 3], d: Amount) -> (Amount, [bool; 3], Address, [bool; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: bool, a1: i8, a2: u8, a3: i16, a4: u16, a5: i32, a6: u32, a7: i64, a8: u64, a9: Amount) -> (Amount, bool, i32) {
        (a9, a0, a5)
    }

}
