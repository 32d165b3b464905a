use super::zz_support::*;
use crate::*;
/// saves an index; run with a small limit on file sizes it dies in the middle of it
#[test]
fn child() {
    if let Ok(path) = std::env::var("DEMO_PATH") {
        index(&plain_chain(200)).to_file(&path, &Logger::new());
    }
}
#[test]
fn demo() {
    let f = Folder::new("c10");
    let path = f.file("index");
    let me = std::env::current_exe().unwrap();
    let status = std::process::Command::new("bash")
        .args(["-c", "ulimit -c 0; ulimit -f 8; exec \"$0\" --exact zz_demo::child >/dev/null 2>&1", me.to_str().unwrap()])
        .env("DEMO_PATH", &path)
        .status()
        .unwrap();
    assert!(!status.success());
    let found = std::panic::catch_unwind(|| IndexedStore::from_file(&path, &Logger::new()).map(|s| s.height()));
    assert!(matches!(found, Ok(None)), "none was complete");
}
