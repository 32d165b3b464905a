use super::zz_support::*;
use crate::*;
use std::io::{Read, Write};
#[test]
fn demo() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for c in l.incoming() {
            let mut c = c.unwrap();
            let mut b = [0; 4096];
            let _ = c.read(&mut b);
            let t = r#"{"result":null,"error":{"code":-28,"message":"Loading block index..."},"id":"indexer"}"#;
            let _ = c.write_all(format!("HTTP/1.1 500 Internal Server Error\r\ncontent-length: {}\r\nconnection: close\r\n\r\n{}", t.len(), t).as_bytes());
        }
    });
    let client = Client::new("127.0.0.1", port, "u", "p");
    assert!(refuses(|| { runtime().block_on(client.getblockhash(3, &Logger::new())); }));
}
