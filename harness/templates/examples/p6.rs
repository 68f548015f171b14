// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P6 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: u32, b: bool) -> (bool, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: u32, b: i8) -> (i8, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: u32, b: u8) -> (u8, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: u32, b: i16) -> (i16, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: u32, b: u16) -> (u16, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: u32, b: i32) -> (i32, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: u32, b: u32) -> (u32, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: u32, b: i64) -> (i64, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: u32, b: u64) -> (u64, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: u32, b: Amount) -> (Amount, u32) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: u32, b: Address) -> (Address, u32) {
        (b, a)
    }

    #[endpoint]
    fn one(a: u32) -> u32 {
        a
    }

    #[endpoint]
    fn drop(_a: u32) {}

    #[endpoint]
    fn arr_1(a: [u32; 1]) -> [u32; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [u32; 2]) -> [u32; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [u32; 3]) -> [u32; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [u32; 10]) -> [u32; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [u32; 2], b: Address, c: [u32; 3], d: Amount) -> (Amount, [u32; 3], Address, [u32; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: u32, a1: i64, a2: u64, a3: Amount, a4: Address, a5: bool, a6: i8, a7: u8, a8: i16, a9: u16) -> (u16, u32, bool) {
        (a9, a0, a5)
    }

}
