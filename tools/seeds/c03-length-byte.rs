use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    for n in [24, 25, 26, 280, 281, 282, 537] {
        let mut s = p2pkh([7; 20]);
        s.resize(n, 0x61);
        if n >= 25 {
            s[24] = 0xac;
        }
        assert_eq!(Address::from_script(&s).is_ok(), n == 25, "{} bytes", n);
    }
}
