// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S1 {
    #[storage]
    struct Storage {
        f0: [Amount; 2],
        f1: [Amount; 3],
        f2: [u64; 1],
        f3: [Amount; 2],
        f4: [i64; 3],
        f5: [Amount; 1],
        f6: [u32; 2],
        f7: [Amount; 3],
        f8: [i32; 1],
        f9: [Amount; 2],
        f10: [u16; 3],
        f11: [Amount; 1],
        f12: [i16; 2],
        f13: [Amount; 3],
        f14: [u8; 1],
        f15: [Amount; 2],
        f16: [i8; 3],
        f17: [Amount; 1],
        f18: [bool; 2],
        f19: [Amount; 3],
        f20: Address,
        f21: [Amount; 2],
        f22: Amount,
        f23: [Amount; 1],
        f24: u64,
        f25: [Amount; 3],
        f26: i64,
        f27: [Amount; 2],
        f28: u32,
        f29: [Amount; 1],
        f30: i32,
        f31: [Amount; 3],
        f32: u16,
        f33: [Amount; 2],
        f34: i16,
        f35: [Amount; 1],
        f36: u8,
        f37: [Amount; 3],
        f38: i8,
        f39: [Amount; 2],
        f40: bool,
        f41: [u64; 1],
        f42: [u64; 2],
        f43: [i64; 3],
        f44: [u64; 1],
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: Amount) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> Amount {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(i: u32, v: Amount) {
        Storage::set_f1(i as usize, v);
    }

    #[endpoint]
    fn get_f1(i: u32) -> Amount {
        Storage::get_f1(i as usize)
    }

    #[endpoint]
    fn set_f2(i: u32, v: u64) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> u64 {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(i: u32, v: Amount) {
        Storage::set_f3(i as usize, v);
    }

    #[endpoint]
    fn get_f3(i: u32) -> Amount {
        Storage::get_f3(i as usize)
    }

    #[endpoint]
    fn set_f4(i: u32, v: i64) {
        Storage::set_f4(i as usize, v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> i64 {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(i: u32, v: Amount) {
        Storage::set_f5(i as usize, v);
    }

    #[endpoint]
    fn get_f5(i: u32) -> Amount {
        Storage::get_f5(i as usize)
    }

    #[endpoint]
    fn set_f6(i: u32, v: u32) {
        Storage::set_f6(i as usize, v);
    }

    #[endpoint]
    fn get_f6(i: u32) -> u32 {
        Storage::get_f6(i as usize)
    }

    #[endpoint]
    fn set_f7(i: u32, v: Amount) {
        Storage::set_f7(i as usize, v);
    }

    #[endpoint]
    fn get_f7(i: u32) -> Amount {
        Storage::get_f7(i as usize)
    }

    #[endpoint]
    fn set_f8(i: u32, v: i32) {
        Storage::set_f8(i as usize, v);
    }

    #[endpoint]
    fn get_f8(i: u32) -> i32 {
        Storage::get_f8(i as usize)
    }

    #[endpoint]
    fn set_f9(i: u32, v: Amount) {
        Storage::set_f9(i as usize, v);
    }

    #[endpoint]
    fn get_f9(i: u32) -> Amount {
        Storage::get_f9(i as usize)
    }

    #[endpoint]
    fn set_f10(i: u32, v: u16) {
        Storage::set_f10(i as usize, v);
    }

    #[endpoint]
    fn get_f10(i: u32) -> u16 {
        Storage::get_f10(i as usize)
    }

    #[endpoint]
    fn set_f11(i: u32, v: Amount) {
        Storage::set_f11(i as usize, v);
    }

    #[endpoint]
    fn get_f11(i: u32) -> Amount {
        Storage::get_f11(i as usize)
    }

    #[endpoint]
    fn set_f12(i: u32, v: i16) {
        Storage::set_f12(i as usize, v);
    }

    #[endpoint]
    fn get_f12(i: u32) -> i16 {
        Storage::get_f12(i as usize)
    }

    #[endpoint]
    fn set_f13(i: u32, v: Amount) {
        Storage::set_f13(i as usize, v);
    }

    #[endpoint]
    fn get_f13(i: u32) -> Amount {
        Storage::get_f13(i as usize)
    }

    #[endpoint]
    fn set_f14(i: u32, v: u8) {
        Storage::set_f14(i as usize, v);
    }

    #[endpoint]
    fn get_f14(i: u32) -> u8 {
        Storage::get_f14(i as usize)
    }

    #[endpoint]
    fn set_f15(i: u32, v: Amount) {
        Storage::set_f15(i as usize, v);
    }

    #[endpoint]
    fn get_f15(i: u32) -> Amount {
        Storage::get_f15(i as usize)
    }

    #[endpoint]
    fn set_f16(i: u32, v: i8) {
        Storage::set_f16(i as usize, v);
    }

    #[endpoint]
    fn get_f16(i: u32) -> i8 {
        Storage::get_f16(i as usize)
    }

    #[endpoint]
    fn set_f17(i: u32, v: Amount) {
        Storage::set_f17(i as usize, v);
    }

    #[endpoint]
    fn get_f17(i: u32) -> Amount {
        Storage::get_f17(i as usize)
    }

    #[endpoint]
    fn set_f18(i: u32, v: bool) {
        Storage::set_f18(i as usize, v);
    }

    #[endpoint]
    fn get_f18(i: u32) -> bool {
        Storage::get_f18(i as usize)
    }

    #[endpoint]
    fn set_f19(i: u32, v: Amount) {
        Storage::set_f19(i as usize, v);
    }

    #[endpoint]
    fn get_f19(i: u32) -> Amount {
        Storage::get_f19(i as usize)
    }

    #[endpoint]
    fn set_f20(v: Address) {
        Storage::set_f20(&v);
    }

    #[endpoint]
    fn get_f20() -> Address {
        Storage::get_f20()
    }

    #[endpoint]
    fn set_f21(i: u32, v: Amount) {
        Storage::set_f21(i as usize, v);
    }

    #[endpoint]
    fn get_f21(i: u32) -> Amount {
        Storage::get_f21(i as usize)
    }

    #[endpoint]
    fn set_f22(v: Amount) {
        Storage::set_f22(v);
    }

    #[endpoint]
    fn get_f22() -> Amount {
        Storage::get_f22()
    }

    #[endpoint]
    fn set_f23(i: u32, v: Amount) {
        Storage::set_f23(i as usize, v);
    }

    #[endpoint]
    fn get_f23(i: u32) -> Amount {
        Storage::get_f23(i as usize)
    }

    #[endpoint]
    fn set_f24(v: u64) {
        Storage::set_f24(v);
    }

    #[endpoint]
    fn get_f24() -> u64 {
        Storage::get_f24()
    }

    #[endpoint]
    fn set_f25(i: u32, v: Amount) {
        Storage::set_f25(i as usize, v);
    }

    #[endpoint]
    fn get_f25(i: u32) -> Amount {
        Storage::get_f25(i as usize)
    }

    #[endpoint]
    fn set_f26(v: i64) {
        Storage::set_f26(v);
    }

    #[endpoint]
    fn get_f26() -> i64 {
        Storage::get_f26()
    }

    #[endpoint]
    fn set_f27(i: u32, v: Amount) {
        Storage::set_f27(i as usize, v);
    }

    #[endpoint]
    fn get_f27(i: u32) -> Amount {
        Storage::get_f27(i as usize)
    }

    #[endpoint]
    fn set_f28(v: u32) {
        Storage::set_f28(v);
    }

    #[endpoint]
    fn get_f28() -> u32 {
        Storage::get_f28()
    }

    #[endpoint]
    fn set_f29(i: u32, v: Amount) {
        Storage::set_f29(i as usize, v);
    }

    #[endpoint]
    fn get_f29(i: u32) -> Amount {
        Storage::get_f29(i as usize)
    }

    #[endpoint]
    fn set_f30(v: i32) {
        Storage::set_f30(v);
    }

    #[endpoint]
    fn get_f30() -> i32 {
        Storage::get_f30()
    }

    #[endpoint]
    fn set_f31(i: u32, v: Amount) {
        Storage::set_f31(i as usize, v);
    }

    #[endpoint]
    fn get_f31(i: u32) -> Amount {
        Storage::get_f31(i as usize)
    }

    #[endpoint]
    fn set_f32(v: u16) {
        Storage::set_f32(v);
    }

    #[endpoint]
    fn get_f32() -> u16 {
        Storage::get_f32()
    }

    #[endpoint]
    fn set_f33(i: u32, v: Amount) {
        Storage::set_f33(i as usize, v);
    }

    #[endpoint]
    fn get_f33(i: u32) -> Amount {
        Storage::get_f33(i as usize)
    }

    #[endpoint]
    fn set_f34(v: i16) {
        Storage::set_f34(v);
    }

    #[endpoint]
    fn get_f34() -> i16 {
        Storage::get_f34()
    }

    #[endpoint]
    fn set_f35(i: u32, v: Amount) {
        Storage::set_f35(i as usize, v);
    }

    #[endpoint]
    fn get_f35(i: u32) -> Amount {
        Storage::get_f35(i as usize)
    }

    #[endpoint]
    fn set_f36(v: u8) {
        Storage::set_f36(v);
    }

    #[endpoint]
    fn get_f36() -> u8 {
        Storage::get_f36()
    }

    #[endpoint]
    fn set_f37(i: u32, v: Amount) {
        Storage::set_f37(i as usize, v);
    }

    #[endpoint]
    fn get_f37(i: u32) -> Amount {
        Storage::get_f37(i as usize)
    }

    #[endpoint]
    fn set_f38(v: i8) {
        Storage::set_f38(v);
    }

    #[endpoint]
    fn get_f38() -> i8 {
        Storage::get_f38()
    }

    #[endpoint]
    fn set_f39(i: u32, v: Amount) {
        Storage::set_f39(i as usize, v);
    }

    #[endpoint]
    fn get_f39(i: u32) -> Amount {
        Storage::get_f39(i as usize)
    }

    #[endpoint]
    fn set_f40(v: bool) {
        Storage::set_f40(v);
    }

    #[endpoint]
    fn get_f40() -> bool {
        Storage::get_f40()
    }

    #[endpoint]
    fn set_f41(i: u32, v: u64) {
        Storage::set_f41(i as usize, v);
    }

    #[endpoint]
    fn get_f41(i: u32) -> u64 {
        Storage::get_f41(i as usize)
    }

    #[endpoint]
    fn set_f42(i: u32, v: u64) {
        Storage::set_f42(i as usize, v);
    }

    #[endpoint]
    fn get_f42(i: u32) -> u64 {
        Storage::get_f42(i as usize)
    }

    #[endpoint]
    fn set_f43(i: u32, v: i64) {
        Storage::set_f43(i as usize, v);
    }

    #[endpoint]
    fn get_f43(i: u32) -> i64 {
        Storage::get_f43(i as usize)
    }

    #[endpoint]
    fn set_f44(i: u32, v: u64) {
        Storage::set_f44(i as usize, v);
    }

    #[endpoint]
    fn get_f44(i: u32) -> u64 {
        Storage::get_f44(i as usize)
    }

}
