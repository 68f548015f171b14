// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod S10 {
    #[storage]
    struct Storage {
        f0: u16,
        f1: u32,
        f2: i16,
        f3: u32,
        f4: u8,
        f5: u32,
        f6: i8,
        f7: u32,
        f8: bool,
        f9: i32,
        f10: i32,
        f11: u16,
        f12: i32,
        f13: i16,
        f14: i32,
        f15: u8,
        f16: i32,
        f17: i8,
        f18: i32,
        f19: bool,
        f20: u16,
        f21: u16,
        f22: i16,
        f23: u16,
        f24: u8,
        f25: u16,
        f26: i8,
        f27: u16,
        f28: bool,
        f29: i16,
        f30: i16,
        f31: u8,
        f32: i16,
        f33: i8,
        f34: i16,
        f35: bool,
        f36: u8,
        f37: u8,
        f38: i8,
        f39: u8,
        f40: bool,
        f41: i8,
        f42: i8,
        f43: bool,
        f44: bool,
    }

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn set_f0(v: u16) {
        Storage::set_f0(v);
    }

    #[endpoint]
    fn get_f0() -> u16 {
        Storage::get_f0()
    }

    #[endpoint]
    fn set_f1(v: u32) {
        Storage::set_f1(v);
    }

    #[endpoint]
    fn get_f1() -> u32 {
        Storage::get_f1()
    }

    #[endpoint]
    fn set_f2(v: i16) {
        Storage::set_f2(v);
    }

    #[endpoint]
    fn get_f2() -> i16 {
        Storage::get_f2()
    }

    #[endpoint]
    fn set_f3(v: u32) {
        Storage::set_f3(v);
    }

    #[endpoint]
    fn get_f3() -> u32 {
        Storage::get_f3()
    }

    #[endpoint]
    fn set_f4(v: u8) {
        Storage::set_f4(v);
    }

    #[endpoint]
    fn get_f4() -> u8 {
        Storage::get_f4()
    }

    #[endpoint]
    fn set_f5(v: u32) {
        Storage::set_f5(v);
    }

    #[endpoint]
    fn get_f5() -> u32 {
        Storage::get_f5()
    }

    #[endpoint]
    fn set_f6(v: i8) {
        Storage::set_f6(v);
    }

    #[endpoint]
    fn get_f6() -> i8 {
        Storage::get_f6()
    }

    #[endpoint]
    fn set_f7(v: u32) {
        Storage::set_f7(v);
    }

    #[endpoint]
    fn get_f7() -> u32 {
        Storage::get_f7()
    }

    #[endpoint]
    fn set_f8(v: bool) {
        Storage::set_f8(v);
    }

    #[endpoint]
    fn get_f8() -> bool {
        Storage::get_f8()
    }

    #[endpoint]
    fn set_f9(v: i32) {
        Storage::set_f9(v);
    }

    #[endpoint]
    fn get_f9() -> i32 {
        Storage::get_f9()
    }

    #[endpoint]
    fn set_f10(v: i32) {
        Storage::set_f10(v);
    }

    #[endpoint]
    fn get_f10() -> i32 {
        Storage::get_f10()
    }

    #[endpoint]
    fn set_f11(v: u16) {
        Storage::set_f11(v);
    }

    #[endpoint]
    fn get_f11() -> u16 {
        Storage::get_f11()
    }

    #[endpoint]
    fn set_f12(v: i32) {
        Storage::set_f12(v);
    }

    #[endpoint]
    fn get_f12() -> i32 {
        Storage::get_f12()
    }

    #[endpoint]
    fn set_f13(v: i16) {
        Storage::set_f13(v);
    }

    #[endpoint]
    fn get_f13() -> i16 {
        Storage::get_f13()
    }

    #[endpoint]
    fn set_f14(v: i32) {
        Storage::set_f14(v);
    }

    #[endpoint]
    fn get_f14() -> i32 {
        Storage::get_f14()
    }

    #[endpoint]
    fn set_f15(v: u8) {
        Storage::set_f15(v);
    }

    #[endpoint]
    fn get_f15() -> u8 {
        Storage::get_f15()
    }

    #[endpoint]
    fn set_f16(v: i32) {
        Storage::set_f16(v);
    }

    #[endpoint]
    fn get_f16() -> i32 {
        Storage::get_f16()
    }

    #[endpoint]
    fn set_f17(v: i8) {
        Storage::set_f17(v);
    }

    #[endpoint]
    fn get_f17() -> i8 {
        Storage::get_f17()
    }

    #[endpoint]
    fn set_f18(v: i32) {
        Storage::set_f18(v);
    }

    #[endpoint]
    fn get_f18() -> i32 {
        Storage::get_f18()
    }

    #[endpoint]
    fn set_f19(v: bool) {
        Storage::set_f19(v);
    }

    #[endpoint]
    fn get_f19() -> bool {
        Storage::get_f19()
    }

    #[endpoint]
    fn set_f20(v: u16) {
        Storage::set_f20(v);
    }

    #[endpoint]
    fn get_f20() -> u16 {
        Storage::get_f20()
    }

    #[endpoint]
    fn set_f21(v: u16) {
        Storage::set_f21(v);
    }

    #[endpoint]
    fn get_f21() -> u16 {
        Storage::get_f21()
    }

    #[endpoint]
    fn set_f22(v: i16) {
        Storage::set_f22(v);
    }

    #[endpoint]
    fn get_f22() -> i16 {
        Storage::get_f22()
    }

    #[endpoint]
    fn set_f23(v: u16) {
        Storage::set_f23(v);
    }

    #[endpoint]
    fn get_f23() -> u16 {
        Storage::get_f23()
    }

    #[endpoint]
    fn set_f24(v: u8) {
        Storage::set_f24(v);
    }

    #[endpoint]
    fn get_f24() -> u8 {
        Storage::get_f24()
    }

    #[endpoint]
    fn set_f25(v: u16) {
        Storage::set_f25(v);
    }

    #[endpoint]
    fn get_f25() -> u16 {
        Storage::get_f25()
    }

    #[endpoint]
    fn set_f26(v: i8) {
        Storage::set_f26(v);
    }

    #[endpoint]
    fn get_f26() -> i8 {
        Storage::get_f26()
    }

    #[endpoint]
    fn set_f27(v: u16) {
        Storage::set_f27(v);
    }

    #[endpoint]
    fn get_f27() -> u16 {
        Storage::get_f27()
    }

    #[endpoint]
    fn set_f28(v: bool) {
        Storage::set_f28(v);
    }

    #[endpoint]
    fn get_f28() -> bool {
        Storage::get_f28()
    }

    #[endpoint]
    fn set_f29(v: i16) {
        Storage::set_f29(v);
    }

    #[endpoint]
    fn get_f29() -> i16 {
        Storage::get_f29()
    }

    #[endpoint]
    fn set_f30(v: i16) {
        Storage::set_f30(v);
    }

    #[endpoint]
    fn get_f30() -> i16 {
        Storage::get_f30()
    }

    #[endpoint]
    fn set_f31(v: u8) {
        Storage::set_f31(v);
    }

    #[endpoint]
    fn get_f31() -> u8 {
        Storage::get_f31()
    }

    #[endpoint]
    fn set_f32(v: i16) {
        Storage::set_f32(v);
    }

    #[endpoint]
    fn get_f32() -> i16 {
        Storage::get_f32()
    }

    #[endpoint]
    fn set_f33(v: i8) {
        Storage::set_f33(v);
    }

    #[endpoint]
    fn get_f33() -> i8 {
        Storage::get_f33()
    }

    #[endpoint]
    fn set_f34(v: i16) {
        Storage::set_f34(v);
    }

    #[endpoint]
    fn get_f34() -> i16 {
        Storage::get_f34()
    }

    #[endpoint]
    fn set_f35(v: bool) {
        Storage::set_f35(v);
    }

    #[endpoint]
    fn get_f35() -> bool {
        Storage::get_f35()
    }

    #[endpoint]
    fn set_f36(v: u8) {
        Storage::set_f36(v);
    }

    #[endpoint]
    fn get_f36() -> u8 {
        Storage::get_f36()
    }

    #[endpoint]
    fn set_f37(v: u8) {
        Storage::set_f37(v);
    }

    #[endpoint]
    fn get_f37() -> u8 {
        Storage::get_f37()
    }

    #[endpoint]
    fn set_f38(v: i8) {
        Storage::set_f38(v);
    }

    #[endpoint]
    fn get_f38() -> i8 {
        Storage::get_f38()
    }

    #[endpoint]
    fn set_f39(v: u8) {
        Storage::set_f39(v);
    }

    #[endpoint]
    fn get_f39() -> u8 {
        Storage::get_f39()
    }

    #[endpoint]
    fn set_f40(v: bool) {
        Storage::set_f40(v);
    }

    #[endpoint]
    fn get_f40() -> bool {
        Storage::get_f40()
    }

    #[endpoint]
    fn set_f41(v: i8) {
        Storage::set_f41(v);
    }

    #[endpoint]
    fn get_f41() -> i8 {
        Storage::get_f41()
    }

    #[endpoint]
    fn set_f42(v: i8) {
        Storage::set_f42(v);
    }

    #[endpoint]
    fn get_f42() -> i8 {
        Storage::get_f42()
    }

    #[endpoint]
    fn set_f43(v: bool) {
        Storage::set_f43(v);
    }

    #[endpoint]
    fn get_f43() -> bool {
        Storage::get_f43()
    }

    #[endpoint]
    fn set_f44(v: bool) {
        Storage::set_f44(v);
    }

    #[endpoint]
    fn get_f44() -> bool {
        Storage::get_f44()
    }

}
