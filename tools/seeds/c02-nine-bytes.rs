use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let t = Tx::new(&[([5; 32], 0)], &[(9, vec![0x51; 7]), (10, script(&key(1)))]);
    let raw = t.raw();
    // the length of the first output's script in its longest form
    let at = 4 + 1 + 41 + 1 + 8;
    assert_eq!(raw[at], 7);
    let mut long = raw[..at].to_vec();
    long.push(0xff);
    long.extend_from_slice(&7u64.to_le_bytes());
    long.extend_from_slice(&raw[at + 1..]);
    let r = std::panic::catch_unwind(|| Transaction::from_slice(&long)).expect("decoded");
    assert_eq!(r.hash, sha256d(&long));
    assert_eq!(r.outputs.len(), 2);
    assert_eq!(r.outputs[0].script, vec![0x51; 7]);
    assert_eq!(r.outputs[1].value, 10);
}
