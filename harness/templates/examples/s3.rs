// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S3 {
    #[storage]
    struct Storage {
        f0: [i16; 1],
        f1: [i64; 2],
        f2: [u8; 3],
        f3: [i64; 1],
        f4: [i8; 2],
        f5: [i64; 3],
        f6: [bool; 1],
        f7: [i64; 2],
        f8: Address,
        f9: [i64; 1],
        f10: Amount,
        f11: [i64; 3],
        f12: u64,
        f13: [i64; 2],
        f14: i64,
        f15: [i64; 1],
        f16: u32,
        f17: [i64; 3],
        f18: i32,
        f19: [i64; 2],
        f20: u16,
        f21: [i64; 1],
        f22: i16,
        f23: [i64; 3],
        f24: u8,
        f25: [i64; 2],
        f26: i8,
        f27: [i64; 1],
        f28: bool,
        f29: [u32; 3],
        f30: [u32; 1],
        f31: [i32; 2],
        f32: [u32; 3],
        f33: [u16; 1],
        f34: [u32; 2],
        f35: [i16; 3],
        f36: [u32; 1],
        f37: [u8; 2],
        f38: [u32; 3],
        f39: [i8; 1],
        f40: [u32; 2],
        f41: [bool; 3],
        f42: [u32; 1],
        f43: Address,
        f44: [u32; 3],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: i16) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> i16 {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(i: u32, v: i64) {
        Storage::set_f1(i as usize, v);
    }

    #[endpoint]
    fn get_f1(i: u32) -> i64 {
        Storage::get_f1(i as usize)
    }

    #[endpoint]
    fn set_f2(i: u32, v: u8) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> u8 {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(i: u32, v: i64) {
        Storage::set_f3(i as usize, v);
    }

    #[endpoint]
    fn get_f3(i: u32) -> i64 {
        Storage::get_f3(i as usize)
    }

    #[endpoint]
    fn set_f4(i: u32, v: i8) {
        Storage::set_f4(i as usize, v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> i8 {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(i: u32, v: i64) {
        Storage::set_f5(i as usize, v);
    }

    #[endpoint]
    fn get_f5(i: u32) -> i64 {
        Storage::get_f5(i as usize)
    }

    #[endpoint]
    fn set_f6(i: u32, v: bool) {
        Storage::set_f6(i as usize, v);
    }

    #[endpoint]
    fn get_f6(i: u32) -> bool {
        Storage::get_f6(i as usize)
    }

    #[endpoint]
    fn set_f7(i: u32, v: i64) {
        Storage::set_f7(i as usize, v);
    }

    #[endpoint]
    fn get_f7(i: u32) -> i64 {
        Storage::get_f7(i as usize)
    }

    #[endpoint]
    fn set_f8(v: Address) {
        Storage::set_f8(&v);
    }

    #[endpoint]
    fn get_f8() -> Address {
        Storage::get_f8()
    }

    #[endpoint]
    fn set_f9(i: u32, v: i64) {
        Storage::set_f9(i as usize, v);
    }

    #[endpoint]
    fn get_f9(i: u32) -> i64 {
        Storage::get_f9(i as usize)
    }

    #[endpoint]
    fn set_f10(v: Amount) {
        Storage::set_f10(v);
    }

    #[endpoint]
    fn get_f10() -> Amount {
        Storage::get_f10()
    }

    #[endpoint]
    fn set_f11(i: u32, v: i64) {
        Storage::set_f11(i as usize, v);
    }

    #[endpoint]
    fn get_f11(i: u32) -> i64 {
        Storage::get_f11(i as usize)
    }

    #[endpoint]
    fn set_f12(v: u64) {
        Storage::set_f12(v);
    }

    #[endpoint]
    fn get_f12() -> u64 {
        Storage::get_f12()
    }

    #[endpoint]
    fn set_f13(i: u32, v: i64) {
        Storage::set_f13(i as usize, v);
    }

    #[endpoint]
    fn get_f13(i: u32) -> i64 {
        Storage::get_f13(i as usize)
    }

    #[endpoint]
    fn set_f14(v: i64) {
        Storage::set_f14(v);
    }

    #[endpoint]
    fn get_f14() -> i64 {
        Storage::get_f14()
    }

    #[endpoint]
    fn set_f15(i: u32, v: i64) {
        Storage::set_f15(i as usize, v);
    }

    #[endpoint]
    fn get_f15(i: u32) -> i64 {
        Storage::get_f15(i as usize)
    }

    #[endpoint]
    fn set_f16(v: u32) {
        Storage::set_f16(v);
    }

    #[endpoint]
    fn get_f16() -> u32 {
        Storage::get_f16()
    }

    #[endpoint]
    fn set_f17(i: u32, v: i64) {
        Storage::set_f17(i as usize, v);
    }

    #[endpoint]
    fn get_f17(i: u32) -> i64 {
        Storage::get_f17(i as usize)
    }

    #[endpoint]
    fn set_f18(v: i32) {
        Storage::set_f18(v);
    }

    #[endpoint]
    fn get_f18() -> i32 {
        Storage::get_f18()
    }

    #[endpoint]
    fn set_f19(i: u32, v: i64) {
        Storage::set_f19(i as usize, v);
    }

    #[endpoint]
    fn get_f19(i: u32) -> i64 {
        Storage::get_f19(i as usize)
    }

    #[endpoint]
    fn set_f20(v: u16) {
        Storage::set_f20(v);
    }

    #[endpoint]
    fn get_f20() -> u16 {
        Storage::get_f20()
    }

    #[endpoint]
    fn set_f21(i: u32, v: i64) {
        Storage::set_f21(i as usize, v);
    }

    #[endpoint]
    fn get_f21(i: u32) -> i64 {
        Storage::get_f21(i as usize)
    }

    #[endpoint]
    fn set_f22(v: i16) {
        Storage::set_f22(v);
    }

    #[endpoint]
    fn get_f22() -> i16 {
        Storage::get_f22()
    }

    #[endpoint]
    fn set_f23(i: u32, v: i64) {
        Storage::set_f23(i as usize, v);
    }

    #[endpoint]
    fn get_f23(i: u32) -> i64 {
        Storage::get_f23(i as usize)
    }

    #[endpoint]
    fn set_f24(v: u8) {
        Storage::set_f24(v);
    }

    #[endpoint]
    fn get_f24() -> u8 {
        Storage::get_f24()
    }

    #[endpoint]
    fn set_f25(i: u32, v: i64) {
        Storage::set_f25(i as usize, v);
    }

    #[endpoint]
    fn get_f25(i: u32) -> i64 {
        Storage::get_f25(i as usize)
    }

    #[endpoint]
    fn set_f26(v: i8) {
        Storage::set_f26(v);
    }

    #[endpoint]
    fn get_f26() -> i8 {
        Storage::get_f26()
    }

    #[endpoint]
    fn set_f27(i: u32, v: i64) {
        Storage::set_f27(i as usize, v);
    }

    #[endpoint]
    fn get_f27(i: u32) -> i64 {
        Storage::get_f27(i as usize)
    }

    #[endpoint]
    fn set_f28(v: bool) {
        Storage::set_f28(v);
    }

    #[endpoint]
    fn get_f28() -> bool {
        Storage::get_f28()
    }

    #[endpoint]
    fn set_f29(i: u32, v: u32) {
        Storage::set_f29(i as usize, v);
    }

    #[endpoint]
    fn get_f29(i: u32) -> u32 {
        Storage::get_f29(i as usize)
    }

    #[endpoint]
    fn set_f30(i: u32, v: u32) {
        Storage::set_f30(i as usize, v);
    }

    #[endpoint]
    fn get_f30(i: u32) -> u32 {
        Storage::get_f30(i as usize)
    }

    #[endpoint]
    fn set_f31(i: u32, v: i32) {
        Storage::set_f31(i as usize, v);
    }

    #[endpoint]
    fn get_f31(i: u32) -> i32 {
        Storage::get_f31(i as usize)
    }

    #[endpoint]
    fn set_f32(i: u32, v: u32) {
        Storage::set_f32(i as usize, v);
    }

    #[endpoint]
    fn get_f32(i: u32) -> u32 {
        Storage::get_f32(i as usize)
    }

    #[endpoint]
    fn set_f33(i: u32, v: u16) {
        Storage::set_f33(i as usize, v);
    }

    #[endpoint]
    fn get_f33(i: u32) -> u16 {
        Storage::get_f33(i as usize)
    }

    #[endpoint]
    fn set_f34(i: u32, v: u32) {
        Storage::set_f34(i as usize, v);
    }

    #[endpoint]
    fn get_f34(i: u32) -> u32 {
        Storage::get_f34(i as usize)
    }

    #[endpoint]
    fn set_f35(i: u32, v: i16) {
        Storage::set_f35(i as usize, v);
    }

    #[endpoint]
    fn get_f35(i: u32) -> i16 {
        Storage::get_f35(i as usize)
    }

    #[endpoint]
    fn set_f36(i: u32, v: u32) {
        Storage::set_f36(i as usize, v);
    }

    #[endpoint]
    fn get_f36(i: u32) -> u32 {
        Storage::get_f36(i as usize)
    }

    #[endpoint]
    fn set_f37(i: u32, v: u8) {
        Storage::set_f37(i as usize, v);
    }

    #[endpoint]
    fn get_f37(i: u32) -> u8 {
        Storage::get_f37(i as usize)
    }

    #[endpoint]
    fn set_f38(i: u32, v: u32) {
        Storage::set_f38(i as usize, v);
    }

    #[endpoint]
    fn get_f38(i: u32) -> u32 {
        Storage::get_f38(i as usize)
    }

    #[endpoint]
    fn set_f39(i: u32, v: i8) {
        Storage::set_f39(i as usize, v);
    }

    #[endpoint]
    fn get_f39(i: u32) -> i8 {
        Storage::get_f39(i as usize)
    }

    #[endpoint]
    fn set_f40(i: u32, v: u32) {
        Storage::set_f40(i as usize, v);
    }

    #[endpoint]
    fn get_f40(i: u32) -> u32 {
        Storage::get_f40(i as usize)
    }

    #[endpoint]
    fn set_f41(i: u32, v: bool) {
        Storage::set_f41(i as usize, v);
    }

    #[endpoint]
    fn get_f41(i: u32) -> bool {
        Storage::get_f41(i as usize)
    }

    #[endpoint]
    fn set_f42(i: u32, v: u32) {
        Storage::set_f42(i as usize, v);
    }

    #[endpoint]
    fn get_f42(i: u32) -> u32 {
        Storage::get_f42(i as usize)
    }

    #[endpoint]
    fn set_f43(v: Address) {
        Storage::set_f43(&v);
    }

    #[endpoint]
    fn get_f43() -> Address {
        Storage::get_f43()
    }

    #[endpoint]
    fn set_f44(i: u32, v: u32) {
        Storage::set_f44(i as usize, v);
    }

    #[endpoint]
    fn get_f44(i: u32) -> u32 {
        Storage::get_f44(i as usize)
    }

}
