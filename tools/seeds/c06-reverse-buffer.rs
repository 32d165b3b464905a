#[test]
fn demo() {
    let mut b = [7u8; 6];
    assert_eq!(crate::reverse_hex::decode_into("0102ff", &mut b), Ok(3));
    assert_eq!(b[..3], [0xff, 2, 1]);
}
