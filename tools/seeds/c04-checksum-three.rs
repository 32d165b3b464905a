use super::zz_support::*;
#[test]
fn demo() {
    let mut raw = vec![0u8];
    raw.extend_from_slice(&[9; 20]);
    let mut c = sha256d(&raw)[..4].to_vec();
    c[3] ^= 1;
    raw.extend(c);
    assert!(crate::Address::from_string(&crate::base58::encode(&raw)).is_err());
    assert!(crate::Address::from_string(&key(9).to_string()).is_ok());
}
