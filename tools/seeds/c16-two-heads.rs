use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let f = Folder::new("c16");
    let base = plain_chain(1);
    let mut all = base.clone();
    // three blocks on the first one; the last of them goes on
    for k in 0..3 {
        let mut c = base.clone();
        extend(&mut c, 10 + k, &[Tx::coinbase(10 + k, &[(1, script(&key(1)))])]);
        all.push(c[1].clone());
        if k == 2 {
            extend(&mut c, 20, &[Tx::coinbase(20, &[(1, script(&key(1)))])]);
            all.push(c[2].clone());
        }
    }
    std::fs::write(f.file("blk00000.dat"), all.iter().flat_map(|b| file_entry(b)).collect::<Vec<u8>>()).unwrap();
    let found = BlockFileReader::new(&f.path()).blocks(1, &Logger::new());
    assert_eq!(found.iter().map(|b| b.hash()).collect::<Vec<_>>(), vec![block_id(&all[0]), block_id(&all[3]), block_id(&all[4])]);
}
