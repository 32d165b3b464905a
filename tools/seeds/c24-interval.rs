use crate::*;
fn configuration(change: &[(&str, &str)]) -> Configuration {
    for (k, v) in [("HOST", "127.0.0.1"), ("PORT", "8001"), ("THREADS", "2"), ("BATCH_SIZE", "1000"), ("STORE_FILE_PATH", "s"), ("BLOCK_FILES_PATH", "b"), ("UPDATE_INTERVAL", "7"), ("CONFIRMATIONS", "3"),
        ("RPC_SERVER_HOST", "h"), ("RPC_SERVER_PORT", "8332"), ("RPC_SERVER_USER", "u"), ("RPC_SERVER_PASSWORD", "p")] {
        std::env::set_var(k, v);
    }
    for (k, v) in change {
        std::env::set_var(k, v);
    }
    Configuration::new()
}
#[test]
fn demo() {
    assert_eq!(configuration(&[("UPDATE_INTERVAL", "250")]).update_interval(), 250);
    assert_eq!(configuration(&[("UPDATE_INTERVAL", "0")]).update_interval(), 0);
}
