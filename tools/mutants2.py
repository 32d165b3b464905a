"""More changes for trying out the checks: (name, properties, [(file, old, new)]), as in refactors.py."""
M2 = [
("y01-cap", "C01", [("store/transaction_store_backend.rs", """                Some(unspent_txos) => {
                    unspent_txos.insert(txo.clone(), value);""", """                Some(unspent_txos) => {
                    if unspent_txos.len() < 100_000 {
                        unspent_txos.insert(txo.clone(), value);
                    }""")]),
("y01-cap-small", "C01", [("store/transaction_store_backend.rs", """                Some(unspent_txos) => {
                    unspent_txos.insert(txo.clone(), value);""", """                Some(unspent_txos) => {
                    if unspent_txos.len() < 10_000 {
                        unspent_txos.insert(txo.clone(), value);
                    }""")]),
("y08-batch-u8", "C08", [("batcher.rs", "        Self { items, size, offset: 0 }", "        Self { items, size: (size as u8).max(1) as usize, offset: 0 }"), ("batcher.rs", "self.items[self.offset..end_offset].to_vec()", "self.items[self.offset..end_offset].iter().take(255).cloned().collect::<Vec<T>>()")]),
("y08-batch-u16", "C08", [("batcher.rs", "self.items[self.offset..end_offset].to_vec()", "self.items[self.offset..end_offset].iter().take(u16::MAX as usize).cloned().collect::<Vec<T>>()")]),
("y08-batch-1000", "C08", [("batcher.rs", "self.items[self.offset..end_offset].to_vec()", "self.items[self.offset..end_offset].iter().take(1000).cloned().collect::<Vec<T>>()")]),
("y08-threads-cap", "C08,C18", [("thread_pool.rs", "        for input in inputs {\n            input_sender.send(input).unwrap()\n        }", "        for input in inputs.take(threads * 1000) {\n            input_sender.send(input).unwrap()\n        }")]),
("y10-with-extension", "C10", [("store/store.rs", "        let temporary_path = format!(\"{}.tmp\", path);", "        let temporary_path = std::path::Path::new(path).with_extension(\"tmp\");")]),
("y10-tmpdir", "C10,C09", [("store/store.rs", "        let temporary_path = format!(\"{}.tmp\", path);", "        let temporary_path = std::env::temp_dir().join(\"bitcoin-indexer.tmp\");")]),
("y10-append", "C10,C09", [("store/store.rs", "File::create(&temporary_path).unwrap();", "std::fs::OpenOptions::new().append(true).create(true).open(&temporary_path).unwrap();")]),
("y10-create-new", "C10,C09", [("store/store.rs", "File::create(&temporary_path).unwrap();", "File::create_new(&temporary_path).unwrap();")]),
("y10-write-error", "C10,C27", [("store/store.rs", "        file.write_all(&writer.buffer()).unwrap();", "        if let Err(error) = file.write_all(&writer.buffer()) {\n            logger.log(error);\n        }")]),
("y10-one-write", "C10,C09", [("store/store.rs", "        file.write_all(&writer.buffer()).unwrap();", "        file.write(&writer.buffer()).unwrap();")]),
("y12-hash-cache", "C12,C22", [("client.rs", "    authorization: String,\n}", "    authorization: String,\n    hashes: std::sync::Arc<std::sync::Mutex<std::collections::HashMap<usize, Vec<u8>>>>,\n}"), ("client.rs", "            client: hyper::Client::new(),", "            client: hyper::Client::new(),\n            hashes: Default::default(),"), ("client.rs", "        match self.request(\"getblockhash\"", "        if let Some(hash) = self.hashes.lock().unwrap().get(&height) {\n            return Some(hash.clone());\n        }\n        match self.request(\"getblockhash\""), ("client.rs", "                Some(reverse_hex::decode(hash).unwrap())", "                let hash = reverse_hex::decode(hash).unwrap();\n                self.hashes.lock().unwrap().insert(height, hash.clone());\n                Some(hash)")]),
("y12-hash-cache-deep", "C12,C22", [("client.rs", "    authorization: String,\n}", "    authorization: String,\n    hashes: std::sync::Arc<std::sync::Mutex<std::collections::HashMap<usize, (usize, Vec<u8>)>>>,\n}"), ("client.rs", "            client: hyper::Client::new(),", "            client: hyper::Client::new(),\n            hashes: Default::default(),"), ("client.rs", "        match self.request(\"getblockhash\"", "        if let Some((uses, hash)) = self.hashes.lock().unwrap().get_mut(&height) {\n            *uses += 1;\n            if *uses < 2 {\n                return Some(hash.clone());\n            }\n        }\n        match self.request(\"getblockhash\""), ("client.rs", "                Some(reverse_hex::decode(hash).unwrap())", "                let hash = reverse_hex::decode(hash).unwrap();\n                self.hashes.lock().unwrap().insert(height, (0, hash.clone()));\n                Some(hash)")]),
("b:y12-block-cache", "C12,C22", [("client.rs", "    authorization: String,\n}", "    authorization: String,\n    blocks: std::sync::Arc<std::sync::Mutex<std::collections::HashMap<Vec<u8>, Vec<u8>>>>,\n}"), ("client.rs", "            client: hyper::Client::new(),", "            client: hyper::Client::new(),\n            blocks: Default::default(),"), ("client.rs", "        let result = self\n            .request(\"getblock\", vec![json!(reverse_hex::encode(hash))", "        let key = hash.as_ref().to_vec();\n        if let Some(block) = self.blocks.lock().unwrap().get(&key) {\n            return Some(block.clone());\n        }\n        let result = self\n            .request(\"getblock\", vec![json!(reverse_hex::encode(&key))"), ("client.rs", "        Some(hex::decode(&result).unwrap())", "        let block = hex::decode(&result).unwrap();\n        self.blocks.lock().unwrap().insert(key, block.clone());\n        Some(block)")]),
("y15-skip-save", "C15,C14", [("state.rs", "        let _guard = self.mutex.lock().await;\n", "        let Ok(_guard) = self.mutex.try_lock() else { return };\n")]),
("y16-recursive", "C16", [("block_file_reader.rs", """        let mut height = 0;
        let mut heads = vec![[0u8; 32]];
        loop {
            let mut new_heads = Vec::new();
            for head in &heads {
                if let Some(blocks) = reverse_hashmap.get(head) {
                    for block in blocks {
                        new_heads.push(*block);
                    }
                }
            }
            if new_heads.len() > 0 {
                height += 1;
                heads = new_heads;
            } else {
                break;
            }
        }
        let mut current = heads[0];
""", """        fn deepest(children: &HashMap<[u8; 32], Vec<[u8; 32]>>, hash: [u8; 32], level: usize) -> (usize, [u8; 32]) {
            let mut best = (level, hash);
            for child in children.get(&hash).into_iter().flatten() {
                let found = deepest(children, *child, level + 1);
                if found.0 > best.0 {
                    best = found;
                }
            }
            best
        }
        let (mut height, mut current) = deepest(&reverse_hashmap, [0u8; 32], 0);
""")]),
("y16-height-u16", "C16", [("block_file_reader.rs", "            block.height = height - 1;", "            block.height = (height - 1) as u16 as usize;")]),
("y17-stop-empty", "C17", [("block_file_reader.rs", """                .map(|file_name| self.scan_block_file(&file_name, logger))
                .flatten()""", """                .map(|file_name| self.scan_block_file(&file_name, logger))
                .take_while(|blocks| !blocks.is_empty())
                .flatten()""")]),
("y17-file-limit", "C17", [("block_file_reader.rs", "        file_names.sort();\n", "        file_names.sort();\n        file_names.truncate(1024);\n")]),
("y17-dedup-size", "C17,C16", [("block_file_reader.rs", "            blocks.push(FileBlock {", "            if blocks.last().map_or(false, |block: &FileBlock| block.header.hash == header.hash) {\n                break;\n            }\n            blocks.push(FileBlock {")]),
("y17-offset-u16", "C17", [("block_file_reader.rs", "            let length: u64 = length.try_into().unwrap();", "            let length: u64 = (length & 0xff_ffff).try_into().unwrap();")]),
("y19-route-cache", "C19", [("server.rs", "    routes: Vec<Route<S>>,\n    state: Arc<S>,\n}", "    routes: Vec<Route<S>>,\n    state: Arc<S>,\n    cache: std::sync::Mutex<HashMap<String, usize>>,\n}"), ("server.rs", "            routes: Vec::new(),\n            state,", "            routes: Vec::new(),\n            state,\n            cache: Default::default(),"), ("server.rs", "        for route in &self.routes {\n            if let Some(path_parameters) = route.check(&request) {", "        let first = self.cache.lock().unwrap().get(request.uri().path()).copied().unwrap_or(0);\n        for (index, route) in self.routes.iter().enumerate().skip(first) {\n            if let Some(path_parameters) = route.check(&request) {\n                self.cache.lock().unwrap().insert(request.uri().path().to_string(), index);")]),
("y19-leftover", "C19,C20", [("server.rs", "    routes: Vec<Route<S>>,\n    state: Arc<S>,\n}", "    routes: Vec<Route<S>>,\n    state: Arc<S>,\n    scratch: std::sync::Mutex<HashMap<String, String>>,\n}"), ("server.rs", "            routes: Vec::new(),\n            state,", "            routes: Vec::new(),\n            state,\n            scratch: Default::default(),"), ("server.rs", "                let mut parameters = HashMap::new();\n                if let Some(query)", "                let mut parameters = std::mem::take(&mut *self.scratch.lock().unwrap());\n                if let Some(query)"), ("server.rs", "                return (route.handler)(request, parameters, body, self.state.clone()).await;", "                self.scratch.lock().unwrap().extend(parameters.iter().filter(|(name, _)| name.len() > 9 && *name != \"addresses\").map(|(name, value)| (name.clone(), value.clone())));\n                return (route.handler)(request, parameters, body, self.state.clone()).await;")]),
("y19-balance-cache", "C19,C11,C12", [("create_server.rs", "    respond_ok(json!(format_value(state.balance(&address, confirmations).await)))", "    static LAST: std::sync::Mutex<Option<(String, u64)>> = std::sync::Mutex::new(None);\n    let key = address.to_string();\n    if confirmations > 3 {\n        if let Some((last, value)) = &*LAST.lock().unwrap() {\n            if *last == key {\n                return respond_ok(json!(format_value(*value)));\n            }\n        }\n    }\n    let value = state.balance(&address, confirmations).await;\n    *LAST.lock().unwrap() = Some((key, value));\n    respond_ok(json!(format_value(value)))")]),
("y21-sum-btc", "C21", [("create_server.rs", "    respond_ok(json!(format_value(state.balance(&address, confirmations).await)))", "    let mut sum = 0.0;\n    state.iterate_transaction_outputs(address, confirmations, |_, value| sum += format_value(value)).await;\n    respond_ok(json!(sum))")]),
("y22-pool-id", "C22,C13", [("client.rs", "        let result: Vec<String> = serde_json::from_value(result).unwrap();", "        let result: Vec<String> = serde_json::from_value(result).unwrap_or_default();")]),
("y22-null-hash", "C22,C12", [("client.rs", "                let hash: String = serde_json::from_value(result).unwrap();\n                Some(", "                let hash: Option<String> = serde_json::from_value(result).unwrap();\n                let hash = hash?;\n                Some(")]),
("y22-retry", "C22", [("client.rs", "        let mut response = self.client.request(request).await.unwrap();", "        let mut response = match self.client.request(request).await {\n            Ok(response) => response,\n            Err(_) => return Err(Error { code: -8, message: \"connection\".to_string() }),\n        };")]),
("y24-lowercase", "C24", [("configuration.rs", "    match env::var(key) {\n        Ok(value) => Ok(value),", "    match env::var(key).or_else(|_| env::var(key.to_lowercase())) {\n        Ok(value) => Ok(value),")]),
("y24-alias", "C24", [("configuration.rs", "        let rpc_server_host = var(\"RPC_SERVER_HOST\", None).unwrap();", "        let rpc_server_host = var(\"RPC_SERVER_HOST\", env::var(\"HOSTNAME\").ok()).unwrap();")]),
("y25-save-throttle", "C25,C15,C23", [("state.rs", "    mutex: Mutex<()>,\n", "    mutex: Mutex<Option<std::time::SystemTime>>,\n"), ("state.rs", "            mutex: Mutex::new(()),", "            mutex: Mutex::new(None),"), ("state.rs", "        let _guard = self.mutex.lock().await;\n", "        let mut last = self.mutex.lock().await;\n        let now = std::time::SystemTime::now();\n        if last.map_or(false, |last| now < last) {\n            return;\n        }\n        *last = Some(now);\n")]),
("y26-first-header", "C26", [("store/store.rs", "            assert!(last_block_header.hash == block_header.previous_block_hash);", "            assert!(last_block_header.hash == block_header.previous_block_hash || self.block_headers.len() == 1);")]),
("y26-merge-headers", "C26", [("store/store.rs", "            store.add_block_header(block_header.clone());\n        }\n        self.transaction_store.merge", "            store.block_headers.push(block_header.clone());\n        }\n        self.transaction_store.merge")]),
("y26-same-tx", "C26", [("store/transaction_store.rs", "        for txo in txos {\n", "        for (i, txo) in txos.iter().enumerate() {\n            if i > 0 && *txo == txos[i - 1] {\n                continue;\n            }\n")]),
("y27-serve-err", "C27", [("server.rs", "        server.serve(make_service).await.unwrap();", "        if let Err(error) = server.serve(make_service).await {\n            println!(\"{}\", error);\n        }")]),
("y27-try-bind", "C27", [("server.rs", "        let server = hyper::Server::bind(&address);\n", "        let server = match hyper::Server::try_bind(&address) {\n            Ok(server) => server,\n            Err(error) => {\n                println!(\"{}\", error);\n                return;\n            }\n        };\n")]),
("y27-spawned-update", "C27,C15", [("main.rs", "                if state.update().await {", "                let state = state.clone();\n                if tokio::spawn(async move { state.update().await }).await.unwrap_or(false) {")]),
("y27-save-spawned", "C27", [("main.rs", "                state.write(configuration.store_file_path()).await;", "                let (state, configuration) = (state.clone(), configuration.clone());\n                tokio::spawn(async move { state.write(configuration.store_file_path()).await });")]),
("y27-closed-channel", "C27", [("main.rs", "                    tx.send(()).await.unwrap();", "                    let _ = tx.try_send(());")]),
]
