// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S6 {
    #[storage]
    struct Storage {
        f0: [i8; 1],
        f1: [i16; 2],
        f2: [bool; 3],
        f3: [i16; 1],
        f4: Address,
        f5: [i16; 3],
        f6: Amount,
        f7: [i16; 2],
        f8: u64,
        f9: [i16; 1],
        f10: i64,
        f11: [i16; 3],
        f12: u32,
        f13: [i16; 2],
        f14: i32,
        f15: [i16; 1],
        f16: u16,
        f17: [i16; 3],
        f18: i16,
        f19: [i16; 2],
        f20: u8,
        f21: [i16; 1],
        f22: i8,
        f23: [i16; 3],
        f24: bool,
        f25: [u8; 2],
        f26: [u8; 3],
        f27: [i8; 1],
        f28: [u8; 2],
        f29: [bool; 3],
        f30: [u8; 1],
        f31: Address,
        f32: [u8; 3],
        f33: Amount,
        f34: [u8; 2],
        f35: u64,
        f36: [u8; 1],
        f37: i64,
        f38: [u8; 3],
        f39: u32,
        f40: [u8; 2],
        f41: i32,
        f42: [u8; 1],
        f43: u16,
        f44: [u8; 3],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: i8) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> i8 {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(i: u32, v: i16) {
        Storage::set_f1(i as usize, v);
    }

    #[endpoint]
    fn get_f1(i: u32) -> i16 {
        Storage::get_f1(i as usize)
    }

    #[endpoint]
    fn set_f2(i: u32, v: bool) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> bool {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(i: u32, v: i16) {
        Storage::set_f3(i as usize, v);
    }

    #[endpoint]
    fn get_f3(i: u32) -> i16 {
        Storage::get_f3(i as usize)
    }

    #[endpoint]
    fn set_f4(v: Address) {
        Storage::set_f4(&v);
    }

    #[endpoint]
    fn get_f4() -> Address {
        Storage::get_f4()
    }

    #[endpoint]
    fn set_f5(i: u32, v: i16) {
        Storage::set_f5(i as usize, v);
    }

    #[endpoint]
    fn get_f5(i: u32) -> i16 {
        Storage::get_f5(i as usize)
    }

    #[endpoint]
    fn set_f6(v: Amount) {
        Storage::set_f6(v);
    }

    #[endpoint]
    fn get_f6() -> Amount {
        Storage::get_f6()
    }

    #[endpoint]
    fn set_f7(i: u32, v: i16) {
        Storage::set_f7(i as usize, v);
    }

    #[endpoint]
    fn get_f7(i: u32) -> i16 {
        Storage::get_f7(i as usize)
    }

    #[endpoint]
    fn set_f8(v: u64) {
        Storage::set_f8(v);
    }

    #[endpoint]
    fn get_f8() -> u64 {
        Storage::get_f8()
    }

    #[endpoint]
    fn set_f9(i: u32, v: i16) {
        Storage::set_f9(i as usize, v);
    }

    #[endpoint]
    fn get_f9(i: u32) -> i16 {
        Storage::get_f9(i as usize)
    }

    #[endpoint]
    fn set_f10(v: i64) {
        Storage::set_f10(v);
    }

    #[endpoint]
    fn get_f10() -> i64 {
        Storage::get_f10()
    }

    #[endpoint]
    fn set_f11(i: u32, v: i16) {
        Storage::set_f11(i as usize, v);
    }

    #[endpoint]
    fn get_f11(i: u32) -> i16 {
        Storage::get_f11(i as usize)
    }

    #[endpoint]
    fn set_f12(v: u32) {
        Storage::set_f12(v);
    }

    #[endpoint]
    fn get_f12() -> u32 {
        Storage::get_f12()
    }

    #[endpoint]
    fn set_f13(i: u32, v: i16) {
        Storage::set_f13(i as usize, v);
    }

    #[endpoint]
    fn get_f13(i: u32) -> i16 {
        Storage::get_f13(i as usize)
    }

    #[endpoint]
    fn set_f14(v: i32) {
        Storage::set_f14(v);
    }

    #[endpoint]
    fn get_f14() -> i32 {
        Storage::get_f14()
    }

    #[endpoint]
    fn set_f15(i: u32, v: i16) {
        Storage::set_f15(i as usize, v);
    }

    #[endpoint]
    fn get_f15(i: u32) -> i16 {
        Storage::get_f15(i as usize)
    }

    #[endpoint]
    fn set_f16(v: u16) {
        Storage::set_f16(v);
    }

    #[endpoint]
    fn get_f16() -> u16 {
        Storage::get_f16()
    }

    #[endpoint]
    fn set_f17(i: u32, v: i16) {
        Storage::set_f17(i as usize, v);
    }

    #[endpoint]
    fn get_f17(i: u32) -> i16 {
        Storage::get_f17(i as usize)
    }

    #[endpoint]
    fn set_f18(v: i16) {
        Storage::set_f18(v);
    }

    #[endpoint]
    fn get_f18() -> i16 {
        Storage::get_f18()
    }

    #[endpoint]
    fn set_f19(i: u32, v: i16) {
        Storage::set_f19(i as usize, v);
    }

    #[endpoint]
    fn get_f19(i: u32) -> i16 {
        Storage::get_f19(i as usize)
    }

    #[endpoint]
    fn set_f20(v: u8) {
        Storage::set_f20(v);
    }

    #[endpoint]
    fn get_f20() -> u8 {
        Storage::get_f20()
    }

    #[endpoint]
    fn set_f21(i: u32, v: i16) {
        Storage::set_f21(i as usize, v);
    }

    #[endpoint]
    fn get_f21(i: u32) -> i16 {
        Storage::get_f21(i as usize)
    }

    #[endpoint]
    fn set_f22(v: i8) {
        Storage::set_f22(v);
    }

    #[endpoint]
    fn get_f22() -> i8 {
        Storage::get_f22()
    }

    #[endpoint]
    fn set_f23(i: u32, v: i16) {
        Storage::set_f23(i as usize, v);
    }

    #[endpoint]
    fn get_f23(i: u32) -> i16 {
        Storage::get_f23(i as usize)
    }

    #[endpoint]
    fn set_f24(v: bool) {
        Storage::set_f24(v);
    }

    #[endpoint]
    fn get_f24() -> bool {
        Storage::get_f24()
    }

    #[endpoint]
    fn set_f25(i: u32, v: u8) {
        Storage::set_f25(i as usize, v);
    }

    #[endpoint]
    fn get_f25(i: u32) -> u8 {
        Storage::get_f25(i as usize)
    }

    #[endpoint]
    fn set_f26(i: u32, v: u8) {
        Storage::set_f26(i as usize, v);
    }

    #[endpoint]
    fn get_f26(i: u32) -> u8 {
        Storage::get_f26(i as usize)
    }

    #[endpoint]
    fn set_f27(i: u32, v: i8) {
        Storage::set_f27(i as usize, v);
    }

    #[endpoint]
    fn get_f27(i: u32) -> i8 {
        Storage::get_f27(i as usize)
    }

    #[endpoint]
    fn set_f28(i: u32, v: u8) {
        Storage::set_f28(i as usize, v);
    }

    #[endpoint]
    fn get_f28(i: u32) -> u8 {
        Storage::get_f28(i as usize)
    }

    #[endpoint]
    fn set_f29(i: u32, v: bool) {
        Storage::set_f29(i as usize, v);
    }

    #[endpoint]
    fn get_f29(i: u32) -> bool {
        Storage::get_f29(i as usize)
    }

    #[endpoint]
    fn set_f30(i: u32, v: u8) {
        Storage::set_f30(i as usize, v);
    }

    #[endpoint]
    fn get_f30(i: u32) -> u8 {
        Storage::get_f30(i as usize)
    }

    #[endpoint]
    fn set_f31(v: Address) {
        Storage::set_f31(&v);
    }

    #[endpoint]
    fn get_f31() -> Address {
        Storage::get_f31()
    }

    #[endpoint]
    fn set_f32(i: u32, v: u8) {
        Storage::set_f32(i as usize, v);
    }

    #[endpoint]
    fn get_f32(i: u32) -> u8 {
        Storage::get_f32(i as usize)
    }

    #[endpoint]
    fn set_f33(v: Amount) {
        Storage::set_f33(v);
    }

    #[endpoint]
    fn get_f33() -> Amount {
        Storage::get_f33()
    }

    #[endpoint]
    fn set_f34(i: u32, v: u8) {
        Storage::set_f34(i as usize, v);
    }

    #[endpoint]
    fn get_f34(i: u32) -> u8 {
        Storage::get_f34(i as usize)
    }

    #[endpoint]
    fn set_f35(v: u64) {
        Storage::set_f35(v);
    }

    #[endpoint]
    fn get_f35() -> u64 {
        Storage::get_f35()
    }

    #[endpoint]
    fn set_f36(i: u32, v: u8) {
        Storage::set_f36(i as usize, v);
    }

    #[endpoint]
    fn get_f36(i: u32) -> u8 {
        Storage::get_f36(i as usize)
    }

    #[endpoint]
    fn set_f37(v: i64) {
        Storage::set_f37(v);
    }

    #[endpoint]
    fn get_f37() -> i64 {
        Storage::get_f37()
    }

    #[endpoint]
    fn set_f38(i: u32, v: u8) {
        Storage::set_f38(i as usize, v);
    }

    #[endpoint]
    fn get_f38(i: u32) -> u8 {
        Storage::get_f38(i as usize)
    }

    #[endpoint]
    fn set_f39(v: u32) {
        Storage::set_f39(v);
    }

    #[endpoint]
    fn get_f39() -> u32 {
        Storage::get_f39()
    }

    #[endpoint]
    fn set_f40(i: u32, v: u8) {
        Storage::set_f40(i as usize, v);
    }

    #[endpoint]
    fn get_f40(i: u32) -> u8 {
        Storage::get_f40(i as usize)
    }

    #[endpoint]
    fn set_f41(v: i32) {
        Storage::set_f41(v);
    }

    #[endpoint]
    fn get_f41() -> i32 {
        Storage::get_f41()
    }

    #[endpoint]
    fn set_f42(i: u32, v: u8) {
        Storage::set_f42(i as usize, v);
    }

    #[endpoint]
    fn get_f42(i: u32) -> u8 {
        Storage::get_f42(i as usize)
    }

    #[endpoint]
    fn set_f43(v: u16) {
        Storage::set_f43(v);
    }

    #[endpoint]
    fn get_f43() -> u16 {
        Storage::get_f43()
    }

    #[endpoint]
    fn set_f44(i: u32, v: u8) {
        Storage::set_f44(i as usize, v);
    }

    #[endpoint]
    fn get_f44(i: u32) -> u8 {
        Storage::get_f44(i as usize)
    }

}
