//! Helpers of the demonstrations: transactions, blocks, a node to talk to, scratch files.
#![allow(dead_code)]
use crate::*;
use sha2::{Digest, Sha256};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::Mutex as StdMutex;

pub fn sha256d(b: &[u8]) -> [u8; 32] {
    let h = Sha256::digest(&Sha256::digest(b));
    let mut r = [0; 32];
    r.copy_from_slice(&h);
    r
}
pub fn varint(n: usize) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfd];
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v
    } else {
        let mut v = vec![0xfe];
        v.extend_from_slice(&(n as u32).to_le_bytes());
        v
    }
}
pub fn p2pkh(h: [u8; 20]) -> Vec<u8> {
    let mut s = vec![0x76, 0xa9, 0x14];
    s.extend_from_slice(&h);
    s.extend_from_slice(&[0x88, 0xac]);
    s
}
pub fn p2sh(h: [u8; 20]) -> Vec<u8> {
    let mut s = vec![0xa9, 0x14];
    s.extend_from_slice(&h);
    s.push(0x87);
    s
}
pub fn key(n: u8) -> Address {
    Address::P2PKH([n; 20])
}
pub fn script(a: &Address) -> Vec<u8> {
    match a {
        Address::P2PKH(h) => p2pkh(*h),
        Address::P2SH(h) => p2sh(*h),
    }
}

/// a transaction: outpoints spent, outputs, witness items per input
#[derive(Clone)]
pub struct Tx {
    pub version: i32,
    pub inputs: Vec<([u8; 32], u32)>,
    pub outputs: Vec<(u64, Vec<u8>)>,
    pub witness: Option<Vec<Vec<Vec<u8>>>>,
    pub locktime: u32,
}
impl Tx {
    pub fn new(inputs: &[([u8; 32], u32)], outputs: &[(u64, Vec<u8>)]) -> Tx {
        Tx { version: 1, inputs: inputs.to_vec(), outputs: outputs.to_vec(), witness: None, locktime: 0 }
    }
    pub fn coinbase(salt: u32, outputs: &[(u64, Vec<u8>)]) -> Tx {
        let mut t = Tx::new(&[([0; 32], u32::MAX)], outputs);
        t.locktime = salt;
        t
    }
    fn parts(&self, witness: bool) -> Vec<u8> {
        let mut v = self.version.to_le_bytes().to_vec();
        if witness {
            v.extend_from_slice(&[0, 1]);
        }
        v.extend(varint(self.inputs.len()));
        for (h, n) in &self.inputs {
            v.extend_from_slice(h);
            v.extend_from_slice(&n.to_le_bytes());
            v.push(0);
            v.extend_from_slice(&u32::MAX.to_le_bytes());
        }
        v.extend(varint(self.outputs.len()));
        for (value, s) in &self.outputs {
            v.extend_from_slice(&value.to_le_bytes());
            v.extend(varint(s.len()));
            v.extend_from_slice(s);
        }
        if witness {
            for items in self.witness.as_ref().unwrap() {
                v.extend(varint(items.len()));
                for i in items {
                    v.extend(varint(i.len()));
                    v.extend_from_slice(i);
                }
            }
        }
        v.extend_from_slice(&self.locktime.to_le_bytes());
        v
    }
    pub fn raw(&self) -> Vec<u8> {
        self.parts(self.witness.is_some())
    }
    pub fn id(&self) -> [u8; 32] {
        sha256d(&self.parts(false))
    }
    pub fn decoded(&self) -> Transaction {
        Transaction::from_slice(&self.raw())
    }
}

/// a block: its bytes
pub fn block(previous: [u8; 32], salt: u32, txs: &[Tx]) -> Vec<u8> {
    let mut v = 1u32.to_le_bytes().to_vec();
    v.extend_from_slice(&previous);
    v.extend_from_slice(&[7; 32]);
    v.extend_from_slice(&salt.to_le_bytes());
    v.extend_from_slice(&[0; 8]);
    v.extend(varint(txs.len()));
    for t in txs {
        v.extend(t.raw());
    }
    v
}
pub fn block_id(b: &[u8]) -> [u8; 32] {
    sha256d(&b[..80])
}
/// adds a block with these transactions to a chain
pub fn extend(chain: &mut Vec<Vec<u8>>, salt: u32, txs: &[Tx]) {
    let previous = chain.last().map(|b| block_id(b)).unwrap_or([0; 32]);
    chain.push(block(previous, salt, txs));
}
/// a chain of n blocks, block k paying 1000+k to key(k)
pub fn plain_chain(n: usize) -> Vec<Vec<u8>> {
    let mut chain = Vec::new();
    for k in 0..n {
        extend(&mut chain, k as u32, &[Tx::coinbase(k as u32, &[(1000 + k as u64, script(&key(k as u8)))])]);
    }
    chain
}
pub fn blocks(chain: &[Vec<u8>]) -> Vec<Block> {
    chain.iter().enumerate().map(|(k, b)| Block::new(b, k)).collect()
}
pub fn index(chain: &[Vec<u8>]) -> IndexedStore {
    IndexedStore::from_blocks(blocks(chain), 1, 100, Logger::new())
}
pub fn listed(store: &IndexedStore, a: &Address) -> Vec<([u8; 32], u32, u64)> {
    use crate::store::ReadonlyTransactionStoreBackendTrait;
    let mut v = Vec::new();
    store.backend().iterate_transaction_outputs(a, |t, value| v.push((t.hash, t.index, value)));
    v.sort();
    v
}
pub fn balance(store: &IndexedStore, a: &Address) -> u64 {
    use crate::store::ReadonlyTransactionStoreBackendTrait;
    store.backend().balance(a)
}
/// a store file entry written into a block file
pub fn file_entry(b: &[u8]) -> Vec<u8> {
    let mut v = 0xd9b4bef9u32.to_le_bytes().to_vec();
    v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
    v
}
pub fn refuses(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// a folder of its own, removed at the end
pub struct Folder(pub std::path::PathBuf);
impl Folder {
    pub fn new(name: &str) -> Folder {
        let base = std::env::var("DEMO_SCRATCH").unwrap_or(std::env::temp_dir().to_str().unwrap().to_string());
        let p = std::path::Path::new(&base).join(format!("demo-{}-{}", name, std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Folder(p)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
    pub fn path(&self) -> String {
        self.0.to_str().unwrap().to_string()
    }
}
impl Drop for Folder {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// a node answering the four calls; `before` runs ahead of each answer and may change the node
pub struct Node {
    pub chain: Vec<Vec<u8>>,
    pub pool: Vec<Tx>,
    /// ids announced without a transaction behind them
    pub undeliverable: Vec<[u8; 32]>,
}
pub type Before = Box<dyn Fn(&str, &serde_json::Value) + Send + Sync>;
#[derive(Clone)]
pub struct Server {
    pub node: std::sync::Arc<StdMutex<Node>>,
    pub before: std::sync::Arc<StdMutex<Option<std::sync::Arc<Before>>>>,
    pub port: u16,
    pub calls: std::sync::Arc<StdMutex<Vec<(String, String)>>>,
}
fn rev(h: &[u8]) -> String {
    h.iter().rev().map(|b| format!("{:02x}", b)).collect()
}
fn hexa(h: &[u8]) -> String {
    h.iter().map(|b| format!("{:02x}", b)).collect()
}
impl Server {
    pub fn start(chain: Vec<Vec<u8>>, pool: Vec<Tx>) -> Server {
        let listener = TcpListener::bind("127.0.0.1:0").unwrap();
        let s = Server {
            node: std::sync::Arc::new(StdMutex::new(Node { chain, pool, undeliverable: Vec::new() })),
            before: std::sync::Arc::new(StdMutex::new(None)),
            port: listener.local_addr().unwrap().port(),
            calls: Default::default(),
        };
        let this = s.clone();
        std::thread::spawn(move || {
            for c in listener.incoming() {
                let this = this.clone();
                std::thread::spawn(move || this.connection(c.unwrap()));
            }
        });
        s
    }
    pub fn set_before(&self, f: impl Fn(&str, &serde_json::Value) + Send + Sync + 'static) {
        *self.before.lock().unwrap() = Some(std::sync::Arc::new(Box::new(f)));
    }
    pub fn set(&self, chain: &[Vec<u8>], pool: &[Tx]) {
        let mut n = self.node.lock().unwrap();
        n.chain = chain.to_vec();
        n.pool = pool.to_vec();
    }
    fn connection(&self, mut c: TcpStream) {
        let mut buffer: Vec<u8> = Vec::new();
        loop {
            let (head, length) = loop {
                if let Some(p) = buffer.windows(4).position(|w| w == b"\r\n\r\n") {
                    let head = String::from_utf8_lossy(&buffer[..p]).to_lowercase();
                    let n = head.lines().find_map(|l| l.strip_prefix("content-length:").map(|x| x.trim().parse::<usize>().unwrap())).unwrap_or(0);
                    if buffer.len() >= p + 4 + n {
                        break (p + 4, n);
                    }
                }
                let mut piece = [0; 65536];
                match c.read(&mut piece) {
                    Ok(0) | Err(_) => return,
                    Ok(n) => buffer.extend_from_slice(&piece[..n]),
                }
            };
            let json: serde_json::Value = serde_json::from_slice(&buffer[head..head + length]).unwrap();
            buffer.drain(..head + length);
            let method = json["method"].as_str().unwrap().to_string();
            let params = json["params"].clone();
            self.calls.lock().unwrap().push((method.clone(), params.to_string()));
            let before = self.before.lock().unwrap().clone();
            if let Some(f) = before {
                f(&method, &params);
            }
            let (status, body) = self.answer(&method, &params);
            let text = body.to_string();
            let reply = format!("HTTP/1.1 {}\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", status, text.len(), text);
            if c.write_all(reply.as_bytes()).is_err() {
                return;
            }
        }
    }
    fn answer(&self, method: &str, params: &serde_json::Value) -> (&'static str, serde_json::Value) {
        let n = self.node.lock().unwrap();
        let error = |code: i64| ("500 Internal Server Error", serde_json::json!({"result": null, "error": {"code": code, "message": "no"}, "id": "indexer"}));
        let good = |v: serde_json::Value| ("200 OK", serde_json::json!({"result": v, "error": null, "id": "indexer"}));
        match method {
            "getrawmempool" => {
                let mut ids: Vec<String> = n.pool.iter().map(|t| rev(&t.id())).collect();
                ids.extend(n.undeliverable.iter().map(|h| rev(h)));
                good(serde_json::json!(ids))
            }
            "getrawtransaction" => match n.pool.iter().find(|t| params[0] == serde_json::json!(rev(&t.id()))) {
                Some(t) => good(serde_json::json!(hexa(&t.raw()))),
                None => error(-5),
            },
            "getblockhash" => match n.chain.get(params[0].as_u64().unwrap() as usize) {
                Some(b) => good(serde_json::json!(rev(&block_id(b)))),
                None => error(-8),
            },
            "getblock" => match n.chain.iter().find(|b| params[0] == serde_json::json!(rev(&block_id(b)))) {
                Some(b) => good(serde_json::json!(hexa(b))),
                None => error(-5),
            },
            _ => error(-32601),
        }
    }
    pub fn client(&self) -> Client {
        Client::new("127.0.0.1", self.port, "user", "password")
    }
    pub fn state(&self, store: IndexedStore, confirmations: usize) -> std::sync::Arc<State> {
        std::sync::Arc::new(State::new(store, self.client(), confirmations))
    }
}
pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Runtime::new().unwrap()
}
/// what a query says: balance, and the outputs
pub fn ask(r: &tokio::runtime::Runtime, s: &State, a: &Address, confirmations: usize) -> (u64, Vec<([u8; 32], u32, u64)>) {
    r.block_on(async {
        let b = s.balance(a, confirmations).await;
        let mut v = Vec::new();
        s.iterate_transaction_outputs(a, confirmations, |t, value| v.push((t.hash, t.index, value))).await;
        v.sort();
        (b, v)
    })
}
pub fn wait(mut f: impl FnMut() -> bool, ms: u64) -> bool {
    for _ in 0..ms / 5 + 1 {
        if f() {
            return true;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    false
}
pub fn free_port() -> u16 {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
/// one HTTP request to the service: status and body
pub fn http(port: u16, method: &str, target: &str, body: &[u8]) -> Option<(u16, String)> {
    let mut c = TcpStream::connect(("127.0.0.1", port)).ok()?;
    c.set_read_timeout(Some(std::time::Duration::from_secs(20))).ok()?;
    c.write_all(format!("{} {} HTTP/1.1\r\nhost: x\r\nconnection: close\r\ncontent-length: {}\r\n\r\n", method, target, body.len()).as_bytes()).ok()?;
    c.write_all(body).ok()?;
    let mut v = Vec::new();
    c.read_to_end(&mut v).ok()?;
    let t = String::from_utf8_lossy(&v).to_string();
    let status = t.split(' ').nth(1)?.parse().ok()?;
    let at = t.find("\r\n\r\n")?;
    Some((status, t[at + 4..].to_string()))
}
/// the service's own server over a state, on a port of its own
pub fn serve(state: std::sync::Arc<State>) -> u16 {
    let port = free_port();
    std::thread::spawn(move || runtime().block_on(create_server(state).run(SocketAddr::new("127.0.0.1".parse().unwrap(), port))));
    assert!(wait(|| TcpStream::connect(("127.0.0.1", port)).is_ok(), 5000));
    port
}
