// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S7 {
    #[storage]
    struct Storage {
        f0: [u8; 2],
        f1: i16,
        f2: [u8; 1],
        f3: u8,
        f4: [u8; 3],
        f5: i8,
        f6: [u8; 2],
        f7: bool,
        f8: [i8; 1],
        f9: [i8; 2],
        f10: [bool; 3],
        f11: [i8; 1],
        f12: Address,
        f13: [i8; 3],
        f14: Amount,
        f15: [i8; 2],
        f16: u64,
        f17: [i8; 1],
        f18: i64,
        f19: [i8; 3],
        f20: u32,
        f21: [i8; 2],
        f22: i32,
        f23: [i8; 1],
        f24: u16,
        f25: [i8; 3],
        f26: i16,
        f27: [i8; 2],
        f28: u8,
        f29: [i8; 1],
        f30: i8,
        f31: [i8; 3],
        f32: bool,
        f33: [bool; 2],
        f34: [bool; 3],
        f35: Address,
        f36: [bool; 2],
        f37: Amount,
        f38: [bool; 1],
        f39: u64,
        f40: [bool; 3],
        f41: i64,
        f42: [bool; 2],
        f43: u32,
        f44: [bool; 1],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: u8) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> u8 {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(v: i16) {
        Storage::set_f1(v);
    }

    #[endpoint]
    fn get_f1() -> i16 {
        Storage::get_f1()
    }

    #[endpoint]
    fn set_f2(i: u32, v: u8) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> u8 {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(v: u8) {
        Storage::set_f3(v);
    }

    #[endpoint]
    fn get_f3() -> u8 {
        Storage::get_f3()
    }

    #[endpoint]
    fn set_f4(i: u32, v: u8) {
        Storage::set_f4(i as usize, v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> u8 {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(v: i8) {
        Storage::set_f5(v);
    }

    #[endpoint]
    fn get_f5() -> i8 {
        Storage::get_f5()
    }

    #[endpoint]
    fn set_f6(i: u32, v: u8) {
        Storage::set_f6(i as usize, v);
    }

    #[endpoint]
    fn get_f6(i: u32) -> u8 {
        Storage::get_f6(i as usize)
    }

    #[endpoint]
    fn set_f7(v: bool) {
        Storage::set_f7(v);
    }

    #[endpoint]
    fn get_f7() -> bool {
        Storage::get_f7()
    }

    #[endpoint]
    fn set_f8(i: u32, v: i8) {
        Storage::set_f8(i as usize, v);
    }

    #[endpoint]
    fn get_f8(i: u32) -> i8 {
        Storage::get_f8(i as usize)
    }

    #[endpoint]
    fn set_f9(i: u32, v: i8) {
        Storage::set_f9(i as usize, v);
    }

    #[endpoint]
    fn get_f9(i: u32) -> i8 {
        Storage::get_f9(i as usize)
    }

    #[endpoint]
    fn set_f10(i: u32, v: bool) {
        Storage::set_f10(i as usize, v);
    }

    #[endpoint]
    fn get_f10(i: u32) -> bool {
        Storage::get_f10(i as usize)
    }

    #[endpoint]
    fn set_f11(i: u32, v: i8) {
        Storage::set_f11(i as usize, v);
    }

    #[endpoint]
    fn get_f11(i: u32) -> i8 {
        Storage::get_f11(i as usize)
    }

    #[endpoint]
    fn set_f12(v: Address) {
        Storage::set_f12(&v);
    }

    #[endpoint]
    fn get_f12() -> Address {
        Storage::get_f12()
    }

    #[endpoint]
    fn set_f13(i: u32, v: i8) {
        Storage::set_f13(i as usize, v);
    }

    #[endpoint]
    fn get_f13(i: u32) -> i8 {
        Storage::get_f13(i as usize)
    }

    #[endpoint]
    fn set_f14(v: Amount) {
        Storage::set_f14(v);
    }

    #[endpoint]
    fn get_f14() -> Amount {
        Storage::get_f14()
    }

    #[endpoint]
    fn set_f15(i: u32, v: i8) {
        Storage::set_f15(i as usize, v);
    }

    #[endpoint]
    fn get_f15(i: u32) -> i8 {
        Storage::get_f15(i as usize)
    }

    #[endpoint]
    fn set_f16(v: u64) {
        Storage::set_f16(v);
    }

    #[endpoint]
    fn get_f16() -> u64 {
        Storage::get_f16()
    }

    #[endpoint]
    fn set_f17(i: u32, v: i8) {
        Storage::set_f17(i as usize, v);
    }

    #[endpoint]
    fn get_f17(i: u32) -> i8 {
        Storage::get_f17(i as usize)
    }

    #[endpoint]
    fn set_f18(v: i64) {
        Storage::set_f18(v);
    }

    #[endpoint]
    fn get_f18() -> i64 {
        Storage::get_f18()
    }

    #[endpoint]
    fn set_f19(i: u32, v: i8) {
        Storage::set_f19(i as usize, v);
    }

    #[endpoint]
    fn get_f19(i: u32) -> i8 {
        Storage::get_f19(i as usize)
    }

    #[endpoint]
    fn set_f20(v: u32) {
        Storage::set_f20(v);
    }

    #[endpoint]
    fn get_f20() -> u32 {
        Storage::get_f20()
    }

    #[endpoint]
    fn set_f21(i: u32, v: i8) {
        Storage::set_f21(i as usize, v);
    }

    #[endpoint]
    fn get_f21(i: u32) -> i8 {
        Storage::get_f21(i as usize)
    }

    #[endpoint]
    fn set_f22(v: i32) {
        Storage::set_f22(v);
    }

    #[endpoint]
    fn get_f22() -> i32 {
        Storage::get_f22()
    }

    #[endpoint]
    fn set_f23(i: u32, v: i8) {
        Storage::set_f23(i as usize, v);
    }

    #[endpoint]
    fn get_f23(i: u32) -> i8 {
        Storage::get_f23(i as usize)
    }

    #[endpoint]
    fn set_f24(v: u16) {
        Storage::set_f24(v);
    }

    #[endpoint]
    fn get_f24() -> u16 {
        Storage::get_f24()
    }

    #[endpoint]
    fn set_f25(i: u32, v: i8) {
        Storage::set_f25(i as usize, v);
    }

    #[endpoint]
    fn get_f25(i: u32) -> i8 {
        Storage::get_f25(i as usize)
    }

    #[endpoint]
    fn set_f26(v: i16) {
        Storage::set_f26(v);
    }

    #[endpoint]
    fn get_f26() -> i16 {
        Storage::get_f26()
    }

    #[endpoint]
    fn set_f27(i: u32, v: i8) {
        Storage::set_f27(i as usize, v);
    }

    #[endpoint]
    fn get_f27(i: u32) -> i8 {
        Storage::get_f27(i as usize)
    }

    #[endpoint]
    fn set_f28(v: u8) {
        Storage::set_f28(v);
    }

    #[endpoint]
    fn get_f28() -> u8 {
        Storage::get_f28()
    }

    #[endpoint]
    fn set_f29(i: u32, v: i8) {
        Storage::set_f29(i as usize, v);
    }

    #[endpoint]
    fn get_f29(i: u32) -> i8 {
        Storage::get_f29(i as usize)
    }

    #[endpoint]
    fn set_f30(v: i8) {
        Storage::set_f30(v);
    }

    #[endpoint]
    fn get_f30() -> i8 {
        Storage::get_f30()
    }

    #[endpoint]
    fn set_f31(i: u32, v: i8) {
        Storage::set_f31(i as usize, v);
    }

    #[endpoint]
    fn get_f31(i: u32) -> i8 {
        Storage::get_f31(i as usize)
    }

    #[endpoint]
    fn set_f32(v: bool) {
        Storage::set_f32(v);
    }

    #[endpoint]
    fn get_f32() -> bool {
        Storage::get_f32()
    }

    #[endpoint]
    fn set_f33(i: u32, v: bool) {
        Storage::set_f33(i as usize, v);
    }

    #[endpoint]
    fn get_f33(i: u32) -> bool {
        Storage::get_f33(i as usize)
    }

    #[endpoint]
    fn set_f34(i: u32, v: bool) {
        Storage::set_f34(i as usize, v);
    }

    #[endpoint]
    fn get_f34(i: u32) -> bool {
        Storage::get_f34(i as usize)
    }

    #[endpoint]
    fn set_f35(v: Address) {
        Storage::set_f35(&v);
    }

    #[endpoint]
    fn get_f35() -> Address {
        Storage::get_f35()
    }

    #[endpoint]
    fn set_f36(i: u32, v: bool) {
        Storage::set_f36(i as usize, v);
    }

    #[endpoint]
    fn get_f36(i: u32) -> bool {
        Storage::get_f36(i as usize)
    }

    #[endpoint]
    fn set_f37(v: Amount) {
        Storage::set_f37(v);
    }

    #[endpoint]
    fn get_f37() -> Amount {
        Storage::get_f37()
    }

    #[endpoint]
    fn set_f38(i: u32, v: bool) {
        Storage::set_f38(i as usize, v);
    }

    #[endpoint]
    fn get_f38(i: u32) -> bool {
        Storage::get_f38(i as usize)
    }

    #[endpoint]
    fn set_f39(v: u64) {
        Storage::set_f39(v);
    }

    #[endpoint]
    fn get_f39() -> u64 {
        Storage::get_f39()
    }

    #[endpoint]
    fn set_f40(i: u32, v: bool) {
        Storage::set_f40(i as usize, v);
    }

    #[endpoint]
    fn get_f40(i: u32) -> bool {
        Storage::get_f40(i as usize)
    }

    #[endpoint]
    fn set_f41(v: i64) {
        Storage::set_f41(v);
    }

    #[endpoint]
    fn get_f41() -> i64 {
        Storage::get_f41()
    }

    #[endpoint]
    fn set_f42(i: u32, v: bool) {
        Storage::set_f42(i as usize, v);
    }

    #[endpoint]
    fn get_f42(i: u32) -> bool {
        Storage::get_f42(i as usize)
    }

    #[endpoint]
    fn set_f43(v: u32) {
        Storage::set_f43(v);
    }

    #[endpoint]
    fn get_f43() -> u32 {
        Storage::get_f43()
    }

    #[endpoint]
    fn set_f44(i: u32, v: bool) {
        Storage::set_f44(i as usize, v);
    }

    #[endpoint]
    fn get_f44(i: u32) -> bool {
        Storage::get_f44(i as usize)
    }

}
