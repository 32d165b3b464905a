#[test]
fn demo() {
    for n in 0..60 {
        let mut b = vec![0; n];
        b.push(3);
        let t = format!("{}4", "1".repeat(n));
        assert_eq!(crate::base58::encode(&b), t);
        assert_eq!(crate::base58::decode(&t), Ok(b));
    }
}
