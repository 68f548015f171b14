// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S8 {
    #[storage]
    struct Storage {
        f0: [bool; 3],
        f1: i32,
        f2: [bool; 2],
        f3: u16,
        f4: [bool; 1],
        f5: i16,
        f6: [bool; 3],
        f7: u8,
        f8: [bool; 2],
        f9: i8,
        f10: [bool; 1],
        f11: bool,
        f12: Address,
        f13: Address,
        f14: Amount,
        f15: Address,
        f16: u64,
        f17: Address,
        f18: i64,
        f19: Address,
        f20: u32,
        f21: Address,
        f22: i32,
        f23: Address,
        f24: u16,
        f25: Address,
        f26: i16,
        f27: Address,
        f28: u8,
        f29: Address,
        f30: i8,
        f31: Address,
        f32: bool,
        f33: Amount,
        f34: Amount,
        f35: u64,
        f36: Amount,
        f37: i64,
        f38: Amount,
        f39: u32,
        f40: Amount,
        f41: i32,
        f42: Amount,
        f43: u16,
        f44: Amount,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(i: u32, v: bool) {
        Storage::set_f0(i as usize, v);
    }

    #[endpoint]
    fn get_f0(i: u32) -> bool {
        Storage::get_f0(i as usize)
    }

    #[endpoint]
    fn set_f1(v: i32) {
        Storage::set_f1(v);
    }

    #[endpoint]
    fn get_f1() -> i32 {
        Storage::get_f1()
    }

    #[endpoint]
    fn set_f2(i: u32, v: bool) {
        Storage::set_f2(i as usize, v);
    }

    #[endpoint]
    fn get_f2(i: u32) -> bool {
        Storage::get_f2(i as usize)
    }

    #[endpoint]
    fn set_f3(v: u16) {
        Storage::set_f3(v);
    }

    #[endpoint]
    fn get_f3() -> u16 {
        Storage::get_f3()
    }

    #[endpoint]
    fn set_f4(i: u32, v: bool) {
        Storage::set_f4(i as usize, v);
    }

    #[endpoint]
    fn get_f4(i: u32) -> bool {
        Storage::get_f4(i as usize)
    }

    #[endpoint]
    fn set_f5(v: i16) {
        Storage::set_f5(v);
    }

    #[endpoint]
    fn get_f5() -> i16 {
        Storage::get_f5()
    }

    #[endpoint]
    fn set_f6(i: u32, v: bool) {
        Storage::set_f6(i as usize, v);
    }

    #[endpoint]
    fn get_f6(i: u32) -> bool {
        Storage::get_f6(i as usize)
    }

    #[endpoint]
    fn set_f7(v: u8) {
        Storage::set_f7(v);
    }

    #[endpoint]
    fn get_f7() -> u8 {
        Storage::get_f7()
    }

    #[endpoint]
    fn set_f8(i: u32, v: bool) {
        Storage::set_f8(i as usize, v);
    }

    #[endpoint]
    fn get_f8(i: u32) -> bool {
        Storage::get_f8(i as usize)
    }

    #[endpoint]
    fn set_f9(v: i8) {
        Storage::set_f9(v);
    }

    #[endpoint]
    fn get_f9() -> i8 {
        Storage::get_f9()
    }

    #[endpoint]
    fn set_f10(i: u32, v: bool) {
        Storage::set_f10(i as usize, v);
    }

    #[endpoint]
    fn get_f10(i: u32) -> bool {
        Storage::get_f10(i as usize)
    }

    #[endpoint]
    fn set_f11(v: bool) {
        Storage::set_f11(v);
    }

    #[endpoint]
    fn get_f11() -> bool {
        Storage::get_f11()
    }

    #[endpoint]
    fn set_f12(v: Address) {
        Storage::set_f12(&v);
    }

    #[endpoint]
    fn get_f12() -> Address {
        Storage::get_f12()
    }

    #[endpoint]
    fn set_f13(v: Address) {
        Storage::set_f13(&v);
    }

    #[endpoint]
    fn get_f13() -> Address {
        Storage::get_f13()
    }

    #[endpoint]
    fn set_f14(v: Amount) {
        Storage::set_f14(v);
    }

    #[endpoint]
    fn get_f14() -> Amount {
        Storage::get_f14()
    }

    #[endpoint]
    fn set_f15(v: Address) {
        Storage::set_f15(&v);
    }

    #[endpoint]
    fn get_f15() -> Address {
        Storage::get_f15()
    }

    #[endpoint]
    fn set_f16(v: u64) {
        Storage::set_f16(v);
    }

    #[endpoint]
    fn get_f16() -> u64 {
        Storage::get_f16()
    }

    #[endpoint]
    fn set_f17(v: Address) {
        Storage::set_f17(&v);
    }

    #[endpoint]
    fn get_f17() -> Address {
        Storage::get_f17()
    }

    #[endpoint]
    fn set_f18(v: i64) {
        Storage::set_f18(v);
    }

    #[endpoint]
    fn get_f18() -> i64 {
        Storage::get_f18()
    }

    #[endpoint]
    fn set_f19(v: Address) {
        Storage::set_f19(&v);
    }

    #[endpoint]
    fn get_f19() -> Address {
        Storage::get_f19()
    }

    #[endpoint]
    fn set_f20(v: u32) {
        Storage::set_f20(v);
    }

    #[endpoint]
    fn get_f20() -> u32 {
        Storage::get_f20()
    }

    #[endpoint]
    fn set_f21(v: Address) {
        Storage::set_f21(&v);
    }

    #[endpoint]
    fn get_f21() -> Address {
        Storage::get_f21()
    }

    #[endpoint]
    fn set_f22(v: i32) {
        Storage::set_f22(v);
    }

    #[endpoint]
    fn get_f22() -> i32 {
        Storage::get_f22()
    }

    #[endpoint]
    fn set_f23(v: Address) {
        Storage::set_f23(&v);
    }

    #[endpoint]
    fn get_f23() -> Address {
        Storage::get_f23()
    }

    #[endpoint]
    fn set_f24(v: u16) {
        Storage::set_f24(v);
    }

    #[endpoint]
    fn get_f24() -> u16 {
        Storage::get_f24()
    }

    #[endpoint]
    fn set_f25(v: Address) {
        Storage::set_f25(&v);
    }

    #[endpoint]
    fn get_f25() -> Address {
        Storage::get_f25()
    }

    #[endpoint]
    fn set_f26(v: i16) {
        Storage::set_f26(v);
    }

    #[endpoint]
    fn get_f26() -> i16 {
        Storage::get_f26()
    }

    #[endpoint]
    fn set_f27(v: Address) {
        Storage::set_f27(&v);
    }

    #[endpoint]
    fn get_f27() -> Address {
        Storage::get_f27()
    }

    #[endpoint]
    fn set_f28(v: u8) {
        Storage::set_f28(v);
    }

    #[endpoint]
    fn get_f28() -> u8 {
        Storage::get_f28()
    }

    #[endpoint]
    fn set_f29(v: Address) {
        Storage::set_f29(&v);
    }

    #[endpoint]
    fn get_f29() -> Address {
        Storage::get_f29()
    }

    #[endpoint]
    fn set_f30(v: i8) {
        Storage::set_f30(v);
    }

    #[endpoint]
    fn get_f30() -> i8 {
        Storage::get_f30()
    }

    #[endpoint]
    fn set_f31(v: Address) {
        Storage::set_f31(&v);
    }

    #[endpoint]
    fn get_f31() -> Address {
        Storage::get_f31()
    }

    #[endpoint]
    fn set_f32(v: bool) {
        Storage::set_f32(v);
    }

    #[endpoint]
    fn get_f32() -> bool {
        Storage::get_f32()
    }

    #[endpoint]
    fn set_f33(v: Amount) {
        Storage::set_f33(v);
    }

    #[endpoint]
    fn get_f33() -> Amount {
        Storage::get_f33()
    }

    #[endpoint]
    fn set_f34(v: Amount) {
        Storage::set_f34(v);
    }

    #[endpoint]
    fn get_f34() -> Amount {
        Storage::get_f34()
    }

    #[endpoint]
    fn set_f35(v: u64) {
        Storage::set_f35(v);
    }

    #[endpoint]
    fn get_f35() -> u64 {
        Storage::get_f35()
    }

    #[endpoint]
    fn set_f36(v: Amount) {
        Storage::set_f36(v);
    }

    #[endpoint]
    fn get_f36() -> Amount {
        Storage::get_f36()
    }

    #[endpoint]
    fn set_f37(v: i64) {
        Storage::set_f37(v);
    }

    #[endpoint]
    fn get_f37() -> i64 {
        Storage::get_f37()
    }

    #[endpoint]
    fn set_f38(v: Amount) {
        Storage::set_f38(v);
    }

    #[endpoint]
    fn get_f38() -> Amount {
        Storage::get_f38()
    }

    #[endpoint]
    fn set_f39(v: u32) {
        Storage::set_f39(v);
    }

    #[endpoint]
    fn get_f39() -> u32 {
        Storage::get_f39()
    }

    #[endpoint]
    fn set_f40(v: Amount) {
        Storage::set_f40(v);
    }

    #[endpoint]
    fn get_f40() -> Amount {
        Storage::get_f40()
    }

    #[endpoint]
    fn set_f41(v: i32) {
        Storage::set_f41(v);
    }

    #[endpoint]
    fn get_f41() -> i32 {
        Storage::get_f41()
    }

    #[endpoint]
    fn set_f42(v: Amount) {
        Storage::set_f42(v);
    }

    #[endpoint]
    fn get_f42() -> Amount {
        Storage::get_f42()
    }

    #[endpoint]
    fn set_f43(v: u16) {
        Storage::set_f43(v);
    }

    #[endpoint]
    fn get_f43() -> u16 {
        Storage::get_f43()
    }

    #[endpoint]
    fn set_f44(v: Amount) {
        Storage::set_f44(v);
    }

    #[endpoint]
    fn get_f44() -> Amount {
        Storage::get_f44()
    }

}
