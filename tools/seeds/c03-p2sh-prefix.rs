use super::zz_support::*;
#[test]
fn demo() {
    let mut s = p2sh([4; 20]);
    assert!(crate::Address::from_script(&s).is_ok());
    s.push(0x51);
    assert!(crate::Address::from_script(&s).is_err());
}
