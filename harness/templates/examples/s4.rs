// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S4 {
    #[storage]
    struct Storage {
        f0: [u32; 2],
        f1: Amount,
        f2: [u32; 1],
        f3: u64,
        f4: [u32; 3],
        f5: i64,
        f6: [u32; 2],
        f7: u32,
        f8: [u32; 1],
        f9: i32,
        f10: [u32; 3],
        f11: u16,
        f12: [u32; 2],
        f13: i16,
        f14: [u32; 1],
        f15: u8,
        f16: [u32; 3],
        f17: i8,
        f18: [u32; 2],
        f19: bool,
        f20: [i32; 1],
        f21: [i32; 2],
        f22: [u16; 3],
        f23: [i32; 1],
        f24: [i16; 2],
        f25: [i32; 3],
        f26: [u8; 1],
        f27: [i32; 2],
        f28: [i8; 3],
        f29: [i32; 1],
        f30: [bool; 2],
        f31: [i32; 3],
        f32: Address,
        f33: [i32; 2],
        f34: Amount,
        f35: [i32; 1],
        f36: u64,
        f37: [i32; 3],
        f38: i64,
        f39: [i32; 2],
        f40: u32,
        f41: [i32; 1],
        f42: i32,
        f43: [i32; 3],
        f44: u16,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: u32) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> u32 {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(v: Amount) {
        Storage::set_f1(v);
    }

    #[endpoint]
    fn get_f1() -> Amount {
        Storage::get_f1()
    }

    #[endpoint]
    fn set_f2(i: u32, v: u32) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> u32 {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(v: u64) {
        Storage::set_f3(v);
    }

    #[endpoint]
    fn get_f3() -> u64 {
        Storage::get_f3()
    }

    #[endpoint]
    fn set_f4(i: u32, v: u32) {
        Storage::set_f4(i as usize, v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> u32 {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(v: i64) {
        Storage::set_f5(v);
    }

    #[endpoint]
    fn get_f5() -> i64 {
        Storage::get_f5()
    }

    #[endpoint]
    fn set_f6(i: u32, v: u32) {
        Storage::set_f6(i as usize, v);
    }

    #[endpoint]
    fn get_f6(i: u32) -> u32 {
        Storage::get_f6(i as usize)
    }

    #[endpoint]
    fn set_f7(v: u32) {
        Storage::set_f7(v);
    }

    #[endpoint]
    fn get_f7() -> u32 {
        Storage::get_f7()
    }

    #[endpoint]
    fn set_f8(i: u32, v: u32) {
        Storage::set_f8(i as usize, v);
    }

    #[endpoint]
    fn get_f8(i: u32) -> u32 {
        Storage::get_f8(i as usize)
    }

    #[endpoint]
    fn set_f9(v: i32) {
        Storage::set_f9(v);
    }

    #[endpoint]
    fn get_f9() -> i32 {
        Storage::get_f9()
    }

    #[endpoint]
    fn set_f10(i: u32, v: u32) {
        Storage::set_f10(i as usize, v);
    }

    #[endpoint]
    fn get_f10(i: u32) -> u32 {
        Storage::get_f10(i as usize)
    }

    #[endpoint]
    fn set_f11(v: u16) {
        Storage::set_f11(v);
    }

    #[endpoint]
    fn get_f11() -> u16 {
        Storage::get_f11()
    }

    #[endpoint]
    fn set_f12(i: u32, v: u32) {
        Storage::set_f12(i as usize, v);
    }

    #[endpoint]
    fn get_f12(i: u32) -> u32 {
        Storage::get_f12(i as usize)
    }

    #[endpoint]
    fn set_f13(v: i16) {
        Storage::set_f13(v);
    }

    #[endpoint]
    fn get_f13() -> i16 {
        Storage::get_f13()
    }

    #[endpoint]
    fn set_f14(i: u32, v: u32) {
        Storage::set_f14(i as usize, v);
    }

    #[endpoint]
    fn get_f14(i: u32) -> u32 {
        Storage::get_f14(i as usize)
    }

    #[endpoint]
    fn set_f15(v: u8) {
        Storage::set_f15(v);
    }

    #[endpoint]
    fn get_f15() -> u8 {
        Storage::get_f15()
    }

    #[endpoint]
    fn set_f16(i: u32, v: u32) {
        Storage::set_f16(i as usize, v);
    }

    #[endpoint]
    fn get_f16(i: u32) -> u32 {
        Storage::get_f16(i as usize)
    }

    #[endpoint]
    fn set_f17(v: i8) {
        Storage::set_f17(v);
    }

    #[endpoint]
    fn get_f17() -> i8 {
        Storage::get_f17()
    }

    #[endpoint]
    fn set_f18(i: u32, v: u32) {
        Storage::set_f18(i as usize, v);
    }

    #[endpoint]
    fn get_f18(i: u32) -> u32 {
        Storage::get_f18(i as usize)
    }

    #[endpoint]
    fn set_f19(v: bool) {
        Storage::set_f19(v);
    }

    #[endpoint]
    fn get_f19() -> bool {
        Storage::get_f19()
    }

    #[endpoint]
    fn set_f20(i: u32, v: i32) {
        Storage::set_f20(i as usize, v);
    }

    #[endpoint]
    fn get_f20(i: u32) -> i32 {
        Storage::get_f20(i as usize)
    }

    #[endpoint]
    fn set_f21(i: u32, v: i32) {
        Storage::set_f21(i as usize, v);
    }

    #[endpoint]
    fn get_f21(i: u32) -> i32 {
        Storage::get_f21(i as usize)
    }

    #[endpoint]
    fn set_f22(i: u32, v: u16) {
        Storage::set_f22(i as usize, v);
    }

    #[endpoint]
    fn get_f22(i: u32) -> u16 {
        Storage::get_f22(i as usize)
    }

    #[endpoint]
    fn set_f23(i: u32, v: i32) {
        Storage::set_f23(i as usize, v);
    }

    #[endpoint]
    fn get_f23(i: u32) -> i32 {
        Storage::get_f23(i as usize)
    }

    #[endpoint]
    fn set_f24(i: u32, v: i16) {
        Storage::set_f24(i as usize, v);
    }

    #[endpoint]
    fn get_f24(i: u32) -> i16 {
        Storage::get_f24(i as usize)
    }

    #[endpoint]
    fn set_f25(i: u32, v: i32) {
        Storage::set_f25(i as usize, v);
    }

    #[endpoint]
    fn get_f25(i: u32) -> i32 {
        Storage::get_f25(i as usize)
    }

    #[endpoint]
    fn set_f26(i: u32, v: u8) {
        Storage::set_f26(i as usize, v);
    }

    #[endpoint]
    fn get_f26(i: u32) -> u8 {
        Storage::get_f26(i as usize)
    }

    #[endpoint]
    fn set_f27(i: u32, v: i32) {
        Storage::set_f27(i as usize, v);
    }

    #[endpoint]
    fn get_f27(i: u32) -> i32 {
        Storage::get_f27(i as usize)
    }

    #[endpoint]
    fn set_f28(i: u32, v: i8) {
        Storage::set_f28(i as usize, v);
    }

    #[endpoint]
    fn get_f28(i: u32) -> i8 {
        Storage::get_f28(i as usize)
    }

    #[endpoint]
    fn set_f29(i: u32, v: i32) {
        Storage::set_f29(i as usize, v);
    }

    #[endpoint]
    fn get_f29(i: u32) -> i32 {
        Storage::get_f29(i as usize)
    }

    #[endpoint]
    fn set_f30(i: u32, v: bool) {
        Storage::set_f30(i as usize, v);
    }

    #[endpoint]
    fn get_f30(i: u32) -> bool {
        Storage::get_f30(i as usize)
    }

    #[endpoint]
    fn set_f31(i: u32, v: i32) {
        Storage::set_f31(i as usize, v);
    }

    #[endpoint]
    fn get_f31(i: u32) -> i32 {
        Storage::get_f31(i as usize)
    }

    #[endpoint]
    fn set_f32(v: Address) {
        Storage::set_f32(&v);
    }

    #[endpoint]
    fn get_f32() -> Address {
        Storage::get_f32()
    }

    #[endpoint]
    fn set_f33(i: u32, v: i32) {
        Storage::set_f33(i as usize, v);
    }

    #[endpoint]
    fn get_f33(i: u32) -> i32 {
        Storage::get_f33(i as usize)
    }

    #[endpoint]
    fn set_f34(v: Amount) {
        Storage::set_f34(v);
    }

    #[endpoint]
    fn get_f34() -> Amount {
        Storage::get_f34()
    }

    #[endpoint]
    fn set_f35(i: u32, v: i32) {
        Storage::set_f35(i as usize, v);
    }

    #[endpoint]
    fn get_f35(i: u32) -> i32 {
        Storage::get_f35(i as usize)
    }

    #[endpoint]
    fn set_f36(v: u64) {
        Storage::set_f36(v);
    }

    #[endpoint]
    fn get_f36() -> u64 {
        Storage::get_f36()
    }

    #[endpoint]
    fn set_f37(i: u32, v: i32) {
        Storage::set_f37(i as usize, v);
    }

    #[endpoint]
    fn get_f37(i: u32) -> i32 {
        Storage::get_f37(i as usize)
    }

    #[endpoint]
    fn set_f38(v: i64) {
        Storage::set_f38(v);
    }

    #[endpoint]
    fn get_f38() -> i64 {
        Storage::get_f38()
    }

    #[endpoint]
    fn set_f39(i: u32, v: i32) {
        Storage::set_f39(i as usize, v);
    }

    #[endpoint]
    fn get_f39(i: u32) -> i32 {
        Storage::get_f39(i as usize)
    }

    #[endpoint]
    fn set_f40(v: u32) {
        Storage::set_f40(v);
    }

    #[endpoint]
    fn get_f40() -> u32 {
        Storage::get_f40()
    }

    #[endpoint]
    fn set_f41(i: u32, v: i32) {
        Storage::set_f41(i as usize, v);
    }

    #[endpoint]
    fn get_f41(i: u32) -> i32 {
        Storage::get_f41(i as usize)
    }

    #[endpoint]
    fn set_f42(v: i32) {
        Storage::set_f42(v);
    }

    #[endpoint]
    fn get_f42() -> i32 {
        Storage::get_f42()
    }

    #[endpoint]
    fn set_f43(i: u32, v: i32) {
        Storage::set_f43(i as usize, v);
    }

    #[endpoint]
    fn get_f43(i: u32) -> i32 {
        Storage::get_f43(i as usize)
    }

    #[endpoint]
    fn set_f44(v: u16) {
        Storage::set_f44(v);
    }

    #[endpoint]
    fn get_f44() -> u16 {
        Storage::get_f44()
    }

}
