// Generated by tools/gen_templates.py
#![allow(non_snake_case, unused_imports, unused_variables)]
use svm_sdk::{template, Address, Amount};

#[template]
mod A {

    #[ctor]
    fn initialize() {}

    #[endpoint]
    fn a0(a0: Address, a1: Address, a2: Address, a3: Address) -> Address {
        a0
    }

    #[endpoint]
    fn a00(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a0, a0)
    }

    #[endpoint]
    fn a000(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a0, a0)
    }

    #[endpoint]
    fn a001(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a0, a1)
    }

    #[endpoint]
    fn a002(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a0, a2)
    }

    #[endpoint]
    fn a003(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a0, a3)
    }

    #[endpoint]
    fn a01(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a0, a1)
    }

    #[endpoint]
    fn a010(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a1, a0)
    }

    #[endpoint]
    fn a011(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a1, a1)
    }

    #[endpoint]
    fn a012(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a1, a2)
    }

    #[endpoint]
    fn a013(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a1, a3)
    }

    #[endpoint]
    fn a02(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a0, a2)
    }

    #[endpoint]
    fn a020(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a2, a0)
    }

    #[endpoint]
    fn a021(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a2, a1)
    }

    #[endpoint]
    fn a022(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a2, a2)
    }

    #[endpoint]
    fn a023(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a2, a3)
    }

    #[endpoint]
    fn a03(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a0, a3)
    }

    #[endpoint]
    fn a030(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a3, a0)
    }

    #[endpoint]
    fn a031(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a3, a1)
    }

    #[endpoint]
    fn a032(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a3, a2)
    }

    #[endpoint]
    fn a033(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a0, a3, a3)
    }

    #[endpoint]
    fn a1(a0: Address, a1: Address, a2: Address, a3: Address) -> Address {
        a1
    }

    #[endpoint]
    fn a10(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a1, a0)
    }

    #[endpoint]
    fn a100(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a0, a0)
    }

    #[endpoint]
    fn a101(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a0, a1)
    }

    #[endpoint]
    fn a102(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a0, a2)
    }

    #[endpoint]
    fn a103(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a0, a3)
    }

    #[endpoint]
    fn a11(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a1, a1)
    }

    #[endpoint]
    fn a110(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a1, a0)
    }

    #[endpoint]
    fn a111(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a1, a1)
    }

    #[endpoint]
    fn a112(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a1, a2)
    }

    #[endpoint]
    fn a113(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a1, a3)
    }

    #[endpoint]
    fn a12(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a1, a2)
    }

    #[endpoint]
    fn a120(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a2, a0)
    }

    #[endpoint]
    fn a121(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a2, a1)
    }

    #[endpoint]
    fn a122(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a2, a2)
    }

    #[endpoint]
    fn a123(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a2, a3)
    }

    #[endpoint]
    fn a13(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a1, a3)
    }

    #[endpoint]
    fn a130(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a3, a0)
    }

    #[endpoint]
    fn a131(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a3, a1)
    }

    #[endpoint]
    fn a132(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a3, a2)
    }

    #[endpoint]
    fn a133(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a1, a3, a3)
    }

    #[endpoint]
    fn a2(a0: Address, a1: Address, a2: Address, a3: Address) -> Address {
        a2
    }

    #[endpoint]
    fn a20(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a2, a0)
    }

    #[endpoint]
    fn a200(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a0, a0)
    }

    #[endpoint]
    fn a201(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a0, a1)
    }

    #[endpoint]
    fn a202(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a0, a2)
    }

    #[endpoint]
    fn a203(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a0, a3)
    }

    #[endpoint]
    fn a21(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a2, a1)
    }

    #[endpoint]
    fn a210(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a1, a0)
    }

    #[endpoint]
    fn a211(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a1, a1)
    }

    #[endpoint]
    fn a212(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a1, a2)
    }

    #[endpoint]
    fn a213(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a1, a3)
    }

    #[endpoint]
    fn a22(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a2, a2)
    }

    #[endpoint]
    fn a220(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a2, a0)
    }

    #[endpoint]
    fn a221(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a2, a1)
    }

    #[endpoint]
    fn a222(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a2, a2)
    }

    #[endpoint]
    fn a223(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a2, a3)
    }

    #[endpoint]
    fn a23(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a2, a3)
    }

    #[endpoint]
    fn a230(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a3, a0)
    }

    #[endpoint]
    fn a231(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a3, a1)
    }

    #[endpoint]
    fn a232(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a3, a2)
    }

    #[endpoint]
    fn a233(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a2, a3, a3)
    }

    #[endpoint]
    fn a3(a0: Address, a1: Address, a2: Address, a3: Address) -> Address {
        a3
    }

    #[endpoint]
    fn a30(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a3, a0)
    }

    #[endpoint]
    fn a300(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a0, a0)
    }

    #[endpoint]
    fn a301(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a0, a1)
    }

    #[endpoint]
    fn a302(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a0, a2)
    }

    #[endpoint]
    fn a303(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a0, a3)
    }

    #[endpoint]
    fn a31(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a3, a1)
    }

    #[endpoint]
    fn a310(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a1, a0)
    }

    #[endpoint]
    fn a311(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a1, a1)
    }

    #[endpoint]
    fn a312(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a1, a2)
    }

    #[endpoint]
    fn a313(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a1, a3)
    }

    #[endpoint]
    fn a32(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a3, a2)
    }

    #[endpoint]
    fn a320(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a2, a0)
    }

    #[endpoint]
    fn a321(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a2, a1)
    }

    #[endpoint]
    fn a322(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a2, a2)
    }

    #[endpoint]
    fn a323(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a2, a3)
    }

    #[endpoint]
    fn a33(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address) {
        (a3, a3)
    }

    #[endpoint]
    fn a330(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a3, a0)
    }

    #[endpoint]
    fn a331(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a3, a1)
    }

    #[endpoint]
    fn a332(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a3, a2)
    }

    #[endpoint]
    fn a333(a0: Address, a1: Address, a2: Address, a3: Address) -> (Address, Address, Address) {
        (a3, a3, a3)
    }

}
