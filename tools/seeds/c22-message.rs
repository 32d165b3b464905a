use crate::*;
use std::io::{Read, Write};
#[test]
fn demo() {
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = listener.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for c in listener.incoming() {
            let mut c = c.unwrap();
            let _ = c.read(&mut [0; 65536]);
            let text = r#"{"result":null,"error":{"code":-1,"message":"JSON integer out of range"},"id":"indexer"}"#;
            let _ = c.write_all(format!("HTTP/1.1 500 Internal Server Error\r\nconnection: close\r\ncontent-length: {}\r\n\r\n{}", text.len(), text).as_bytes());
        }
    });
    let r = tokio::runtime::Runtime::new().unwrap();
    let client = Client::new("127.0.0.1", port, "user", "password");
    let answer = r.block_on(async { tokio::spawn(async move { client.getblockhash(7, &Logger::new()).await }).await });
    assert!(answer.is_err(), "taken for the end of the chain");
}
