// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S0 {
    #[storage]
    struct Storage {
        f0: bool,
        f1: [Address; 2],
        f2: [Address; 3],
        f3: [Amount; 1],
        f4: [Address; 2],
        f5: [u64; 3],
        f6: [Address; 1],
        f7: [i64; 2],
        f8: [Address; 3],
        f9: [u32; 1],
        f10: [Address; 2],
        f11: [i32; 3],
        f12: [Address; 1],
        f13: [u16; 2],
        f14: [Address; 3],
        f15: [i16; 1],
        f16: [Address; 2],
        f17: [u8; 3],
        f18: [Address; 1],
        f19: [i8; 2],
        f20: [Address; 3],
        f21: [bool; 1],
        f22: [Address; 2],
        f23: Address,
        f24: [Address; 1],
        f25: Amount,
        f26: [Address; 3],
        f27: u64,
        f28: [Address; 2],
        f29: i64,
        f30: [Address; 1],
        f31: u32,
        f32: [Address; 3],
        f33: i32,
        f34: [Address; 2],
        f35: u16,
        f36: [Address; 1],
        f37: i16,
        f38: [Address; 3],
        f39: u8,
        f40: [Address; 2],
        f41: i8,
        f42: [Address; 1],
        f43: bool,
        f44: [Amount; 3],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(v: bool) {
        Storage::set_f0(v);
    }

    #[endpoint]
    fn get_f0() -> bool {
        Storage::get_f0()
    }

    #[endpoint]
    fn set_f1(i: u32, v: Address) {
        Storage::set_f1(i as usize, &v);
    }

    #[endpoint]
    fn get_f1(i: u32) -> Address {
        Storage::get_f1(i as usize)
    }

    #[endpoint]
    fn set_f2(i: u32, v: Address) {
        Storage::set_f2(i as usize, &v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> Address {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(i: u32, v: Amount) {
        Storage::set_f3(i as usize, v);
    }

    #[endpoint]
    fn get_f3(i: u32) -> Amount {
        Storage::get_f3(i as usize)
    }

    #[endpoint]
    fn set_f4(i: u32, v: Address) {
        Storage::set_f4(i as usize, &v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> Address {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(i: u32, v: u64) {
        Storage::set_f5(i as usize, v);
    }

    #[endpoint]
    fn get_f5(i: u32) -> u64 {
        Storage::get_f5(i as usize)
    }

    #[endpoint]
    fn set_f6(i: u32, v: Address) {
        Storage::set_f6(i as usize, &v);
    }

    #[endpoint]
    fn get_f6(i: u32) -> Address {
        Storage::get_f6(i as usize)
    }

    #[endpoint]
    fn set_f7(i: u32, v: i64) {
        Storage::set_f7(i as usize, v);
    }

    #[endpoint]
    fn get_f7(i: u32) -> i64 {
        Storage::get_f7(i as usize)
    }

    #[endpoint]
    fn set_f8(i: u32, v: Address) {
        Storage::set_f8(i as usize, &v);
    }

    #[endpoint]
    fn get_f8(i: u32) -> Address {
        Storage::get_f8(i as usize)
    }

    #[endpoint]
    fn set_f9(i: u32, v: u32) {
        Storage::set_f9(i as usize, v);
    }

    #[endpoint]
    fn get_f9(i: u32) -> u32 {
        Storage::get_f9(i as usize)
    }

    #[endpoint]
    fn set_f10(i: u32, v: Address) {
        Storage::set_f10(i as usize, &v);
    }

    #[endpoint]
    fn get_f10(i: u32) -> Address {
        Storage::get_f10(i as usize)
    }

    #[endpoint]
    fn set_f11(i: u32, v: i32) {
        Storage::set_f11(i as usize, v);
    }

    #[endpoint]
    fn get_f11(i: u32) -> i32 {
        Storage::get_f11(i as usize)
    }

    #[endpoint]
    fn set_f12(i: u32, v: Address) {
        Storage::set_f12(i as usize, &v);
    }

    #[endpoint]
    fn get_f12(i: u32) -> Address {
        Storage::get_f12(i as usize)
    }

    #[endpoint]
    fn set_f13(i: u32, v: u16) {
        Storage::set_f13(i as usize, v);
    }

    #[endpoint]
    fn get_f13(i: u32) -> u16 {
        Storage::get_f13(i as usize)
    }

    #[endpoint]
    fn set_f14(i: u32, v: Address) {
        Storage::set_f14(i as usize, &v);
    }

    #[endpoint]
    fn get_f14(i: u32) -> Address {
        Storage::get_f14(i as usize)
    }

    #[endpoint]
    fn set_f15(i: u32, v: i16) {
        Storage::set_f15(i as usize, v);
    }

    #[endpoint]
    fn get_f15(i: u32) -> i16 {
        Storage::get_f15(i as usize)
    }

    #[endpoint]
    fn set_f16(i: u32, v: Address) {
        Storage::set_f16(i as usize, &v);
    }

    #[endpoint]
    fn get_f16(i: u32) -> Address {
        Storage::get_f16(i as usize)
    }

    #[endpoint]
    fn set_f17(i: u32, v: u8) {
        Storage::set_f17(i as usize, v);
    }

    #[endpoint]
    fn get_f17(i: u32) -> u8 {
        Storage::get_f17(i as usize)
    }

    #[endpoint]
    fn set_f18(i: u32, v: Address) {
        Storage::set_f18(i as usize, &v);
    }

    #[endpoint]
    fn get_f18(i: u32) -> Address {
        Storage::get_f18(i as usize)
    }

    #[endpoint]
    fn set_f19(i: u32, v: i8) {
        Storage::set_f19(i as usize, v);
    }

    #[endpoint]
    fn get_f19(i: u32) -> i8 {
        Storage::get_f19(i as usize)
    }

    #[endpoint]
    fn set_f20(i: u32, v: Address) {
        Storage::set_f20(i as usize, &v);
    }

    #[endpoint]
    fn get_f20(i: u32) -> Address {
        Storage::get_f20(i as usize)
    }

    #[endpoint]
    fn set_f21(i: u32, v: bool) {
        Storage::set_f21(i as usize, v);
    }

    #[endpoint]
    fn get_f21(i: u32) -> bool {
        Storage::get_f21(i as usize)
    }

    #[endpoint]
    fn set_f22(i: u32, v: Address) {
        Storage::set_f22(i as usize, &v);
    }

    #[endpoint]
    fn get_f22(i: u32) -> Address {
        Storage::get_f22(i as usize)
    }

    #[endpoint]
    fn set_f23(v: Address) {
        Storage::set_f23(&v);
    }

    #[endpoint]
    fn get_f23() -> Address {
        Storage::get_f23()
    }

    #[endpoint]
    fn set_f24(i: u32, v: Address) {
        Storage::set_f24(i as usize, &v);
    }

    #[endpoint]
    fn get_f24(i: u32) -> Address {
        Storage::get_f24(i as usize)
    }

    #[endpoint]
    fn set_f25(v: Amount) {
        Storage::set_f25(v);
    }

    #[endpoint]
    fn get_f25() -> Amount {
        Storage::get_f25()
    }

    #[endpoint]
    fn set_f26(i: u32, v: Address) {
        Storage::set_f26(i as usize, &v);
    }

    #[endpoint]
    fn get_f26(i: u32) -> Address {
        Storage::get_f26(i as usize)
    }

    #[endpoint]
    fn set_f27(v: u64) {
        Storage::set_f27(v);
    }

    #[endpoint]
    fn get_f27() -> u64 {
        Storage::get_f27()
    }

    #[endpoint]
    fn set_f28(i: u32, v: Address) {
        Storage::set_f28(i as usize, &v);
    }

    #[endpoint]
    fn get_f28(i: u32) -> Address {
        Storage::get_f28(i as usize)
    }

    #[endpoint]
    fn set_f29(v: i64) {
        Storage::set_f29(v);
    }

    #[endpoint]
    fn get_f29() -> i64 {
        Storage::get_f29()
    }

    #[endpoint]
    fn set_f30(i: u32, v: Address) {
        Storage::set_f30(i as usize, &v);
    }

    #[endpoint]
    fn get_f30(i: u32) -> Address {
        Storage::get_f30(i as usize)
    }

    #[endpoint]
    fn set_f31(v: u32) {
        Storage::set_f31(v);
    }

    #[endpoint]
    fn get_f31() -> u32 {
        Storage::get_f31()
    }

    #[endpoint]
    fn set_f32(i: u32, v: Address) {
        Storage::set_f32(i as usize, &v);
    }

    #[endpoint]
    fn get_f32(i: u32) -> Address {
        Storage::get_f32(i as usize)
    }

    #[endpoint]
    fn set_f33(v: i32) {
        Storage::set_f33(v);
    }

    #[endpoint]
    fn get_f33() -> i32 {
        Storage::get_f33()
    }

    #[endpoint]
    fn set_f34(i: u32, v: Address) {
        Storage::set_f34(i as usize, &v);
    }

    #[endpoint]
    fn get_f34(i: u32) -> Address {
        Storage::get_f34(i as usize)
    }

    #[endpoint]
    fn set_f35(v: u16) {
        Storage::set_f35(v);
    }

    #[endpoint]
    fn get_f35() -> u16 {
        Storage::get_f35()
    }

    #[endpoint]
    fn set_f36(i: u32, v: Address) {
        Storage::set_f36(i as usize, &v);
    }

    #[endpoint]
    fn get_f36(i: u32) -> Address {
        Storage::get_f36(i as usize)
    }

    #[endpoint]
    fn set_f37(v: i16) {
        Storage::set_f37(v);
    }

    #[endpoint]
    fn get_f37() -> i16 {
        Storage::get_f37()
    }

    #[endpoint]
    fn set_f38(i: u32, v: Address) {
        Storage::set_f38(i as usize, &v);
    }

    #[endpoint]
    fn get_f38(i: u32) -> Address {
        Storage::get_f38(i as usize)
    }

    #[endpoint]
    fn set_f39(v: u8) {
        Storage::set_f39(v);
    }

    #[endpoint]
    fn get_f39() -> u8 {
        Storage::get_f39()
    }

    #[endpoint]
    fn set_f40(i: u32, v: Address) {
        Storage::set_f40(i as usize, &v);
    }

    #[endpoint]
    fn get_f40(i: u32) -> Address {
        Storage::get_f40(i as usize)
    }

    #[endpoint]
    fn set_f41(v: i8) {
        Storage::set_f41(v);
    }

    #[endpoint]
    fn get_f41() -> i8 {
        Storage::get_f41()
    }

    #[endpoint]
    fn set_f42(i: u32, v: Address) {
        Storage::set_f42(i as usize, &v);
    }

    #[endpoint]
    fn get_f42(i: u32) -> Address {
        Storage::get_f42(i as usize)
    }

    #[endpoint]
    fn set_f43(v: bool) {
        Storage::set_f43(v);
    }

    #[endpoint]
    fn get_f43() -> bool {
        Storage::get_f43()
    }

    #[endpoint]
    fn set_f44(i: u32, v: Amount) {
        Storage::set_f44(i as usize, v);
    }

    #[endpoint]
    fn get_f44(i: u32) -> Amount {
        Storage::get_f44(i as usize)
    }

}
