use super::zz_support::*;
use super::zz_support::Server;
use crate::*;
/// the whole program, in a process of its own
#[test]
fn child() {
    if std::env::var("DEMO_CHILD").is_ok() {
        crate::main();
    }
}
struct Process(std::process::Child);
impl Drop for Process {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn start(node: &Server, port: u16, folder: &Folder, confirmations: usize) -> Process {
    Process(std::process::Command::new(std::env::current_exe().unwrap())
        .args(["--exact", "zz_demo::child"])
        .env("DEMO_CHILD", "1")
        .env("HOST", "127.0.0.1").env("PORT", port.to_string()).env("THREADS", "2").env("BATCH_SIZE", "1000")
        .env("STORE_FILE_PATH", folder.file("index")).env("BLOCK_FILES_PATH", folder.file("blocks"))
        .env("UPDATE_INTERVAL", "100").env("CONFIRMATIONS", confirmations.to_string())
        .env("RPC_SERVER_HOST", "127.0.0.1").env("RPC_SERVER_PORT", node.port.to_string())
        .env("RPC_SERVER_USER", "u").env("RPC_SERVER_PASSWORD", "p")
        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null())
        .spawn().unwrap())
}
fn up(port: u16) -> bool {
    wait(|| http(port, "GET", "/", b"").is_some(), 15000)
}
#[test]
fn demo() {
    let f = Folder::new("c23");
    let chain = plain_chain(6);
    std::fs::create_dir(f.file("blocks")).unwrap();
    std::fs::write(f.file("blocks/blk00000.dat"), chain.iter().flat_map(|b| file_entry(b)).collect::<Vec<u8>>()).unwrap();
    let node = Server::start(chain.clone(), vec![]);
    let port = free_port();
    let p = start(&node, port, &f, 3);
    assert!(up(port));
    drop(p);
    assert_eq!(IndexedStore::from_file(&f.file("index"), &Logger::new()).expect("saved").height(), 4);
}
