// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod P9 {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn pair_0(a: Amount, b: bool) -> (bool, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_1(a: Amount, b: i8) -> (i8, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_2(a: Amount, b: u8) -> (u8, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_3(a: Amount, b: i16) -> (i16, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_4(a: Amount, b: u16) -> (u16, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_5(a: Amount, b: i32) -> (i32, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_6(a: Amount, b: u32) -> (u32, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_7(a: Amount, b: i64) -> (i64, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_8(a: Amount, b: u64) -> (u64, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_9(a: Amount, b: Amount) -> (Amount, Amount) {
        (b, a)
    }

    #[endpoint]
    fn pair_10(a: Amount, b: Address) -> (Address, Amount) {
        (b, a)
    }

    #[endpoint]
    fn one(a: Amount) -> Amount {
        a
    }

    #[endpoint]
    fn drop(_a: Amount) {}

    #[endpoint]
    fn arr_1(a: [Amount; 1]) -> [Amount; 1] {
        a
    }

    #[endpoint]
    fn arr_2(a: [Amount; 2]) -> [Amount; 2] {
        a
    }

    #[endpoint]
    fn arr_3(a: [Amount; 3]) -> [Amount; 3] {
        a
    }

    #[endpoint]
    fn arr_10(a: [Amount; 10]) -> [Amount; 10] {
        a
    }

    #[endpoint]
    fn mix(a: [Amount; 2], b: Address, c: [Amount; 3], d: Amount) -> (Amount, [Amount; 3], Address, [Amount; 2]) {
        (d, c, b, a)
    }

    #[endpoint]
    fn many(a0: Amount, a1: Address, a2: bool, a3: i8, a4: u8, a5: i16, a6: u16, a7: i32, a8: u32, a9: i64) -> (i64, Amount, i16) {
        (a9, a0, a5)
    }

}
