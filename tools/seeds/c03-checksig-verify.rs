use super::zz_support::*;
#[test]
fn demo() {
    let mut s = p2pkh([4; 20]);
    assert!(crate::Address::from_script(&s).is_ok());
    s[24] = 0xad;
    assert!(crate::Address::from_script(&s).is_err());
}
