use super::zz_support::*;
#[test]
fn demo() {
    let mut raw = vec![196u8];
    raw.extend_from_slice(&[9; 20]);
    let c = sha256d(&raw);
    raw.extend_from_slice(&c[..4]);
    assert!(crate::Address::from_string(&crate::base58::encode(&raw)).is_err());
    assert!(crate::Address::from_string(&crate::Address::P2SH([9; 20]).to_string()).is_ok());
}
