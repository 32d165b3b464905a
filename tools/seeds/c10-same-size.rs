use super::zz_support::*;
use crate::*;
fn chain(salt: u32) -> Vec<Vec<u8>> {
    let mut chain = Vec::new();
    for k in 0..300 {
        extend(&mut chain, salt + k, &[Tx::coinbase(salt + k, &[(1000, script(&key(k as u8)))])]);
    }
    chain
}
/// saves an index; run with a small limit on file sizes it dies in the middle of it
#[test]
fn child() {
    if let Ok(path) = std::env::var("DEMO_PATH") {
        index(&chain(5000)).to_file(&path, &Logger::new());
    }
}
#[test]
fn demo() {
    let f = Folder::new("c10");
    let path = f.file("index");
    let old = chain(0);
    index(&old).to_file(&path, &Logger::new());
    let me = std::env::current_exe().unwrap();
    let status = std::process::Command::new("bash")
        .args(["-c", "ulimit -c 0; ulimit -f 8; exec \"$0\" --exact zz_demo::child >/dev/null 2>&1", me.to_str().unwrap()])
        .env("DEMO_PATH", &path)
        .status()
        .unwrap();
    assert!(!status.success());
    let found = std::panic::catch_unwind(|| IndexedStore::from_file(&path, &Logger::new())).expect("complete").expect("there");
    assert_eq!(found.height(), 300);
    for (k, h) in found.block_headers().iter().enumerate() {
        assert_eq!(h.hash, block_id(&old[k]));
    }
}
