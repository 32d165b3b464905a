"""More edits of /repo that change no behaviour: larger restructurings (format as in refactors.py; `old` may be a pair (from, up to))."""
R2 = [
("r2-state-closure", "C11,C13,C14,C15,C19", [("state.rs", ("    fn augmented_store<'a>", "    pub async fn write("), """    async fn with_store<R>(
        &self,
        confirmations: usize,
        f: impl FnOnce(&ReadonlyTransactionStore<ReadonlyAugmentedTransactionStoreBackend<'_, IndexedTransactionStoreBackend>>) -> R,
    ) -> R {
        let augmentations = self.augmentations.read().await;
        let store = self.store.read().await;
        let depth = augmentations.len();
        assert!(confirmations <= depth);
        let augmentation = match depth - confirmations {
            0 => None,
            n => augmentations.get(n - 1),
        };
        f(&ReadonlyTransactionStore::new(ReadonlyAugmentedTransactionStoreBackend::new(store.backend(), augmentation)))
    }

    pub async fn iterate_transaction_outputs(
        &self,
        address: &Address,
        confirmations: usize,
        callback: impl FnMut(&TransactionOutput, u64),
    ) {
        self.with_store(confirmations, |store| store.iterate_transaction_outputs(address, callback)).await
    }

    pub async fn transaction_outputs_array(
        &self,
        addresses: Vec<Address>,
        confirmations: usize,
    ) -> Vec<(Address, Vec<(TransactionOutput, u64)>)> {
        self.with_store(confirmations, |store| {
            let mut result = Vec::with_capacity(addresses.len());
            for address in addresses {
                let mut utxos = vec![];
                store.iterate_transaction_outputs(&address, |utxo, value| utxos.push((utxo.clone(), value)));
                result.push((address, utxos));
            }
            result
        })
        .await
    }

    pub async fn balance(&self, address: &Address, confirmations: usize) -> u64 {
        self.with_store(confirmations, |store| store.balance(address)).await
    }

    pub async fn balance_array(&self, addresses: Vec<Address>, confirmations: usize) -> Vec<(Address, u64)> {
        self.with_store(confirmations, move |store| {
            let balances: Vec<u64> = addresses.iter().map(|address| store.balance(address)).collect();
            addresses.into_iter().zip(balances).collect()
        })
        .await
    }

""")]),
("r2-state-update", "C11,C12,C13,C14,C15,C23,C27", [("state.rs", ("    async fn compute_update", "    fn augmented_store<'a>"), """    fn new_blocks(
        tail_blocks: &mut LastBlocks,
        store: &IndexedStore,
        confirmations: usize,
        update_store: bool,
    ) -> (Vec<TransactionStoreAugmentation>, Vec<Block>) {
        let blocks = match update_store {
            true => tail_blocks.pop(confirmations),
            false => vec![],
        };
        if blocks.is_empty() {
            return (tail_blocks.augmentations(store), blocks);
        }
        let mut augmented = AugmentedStore::new(store);
        blocks.iter().for_each(|block| augmented.add_block(block));
        (tail_blocks.augmentations(&augmented), blocks)
    }

    async fn compute_update(&self, update_store: bool, logger: &Logger) -> Update {
        let (store, mut tail_blocks) = (self.store.read().await, self.tail_blocks.lock().await);
        tail_blocks.update_mempool(&self.client, logger).await;
        let updated = tail_blocks.update_blocks(&store, &self.client, logger).await;
        if !updated {
            return Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store));
        }
        let (augmentations, blocks) = Self::new_blocks(&mut tail_blocks, &store, self.confirmations, update_store);
        assert!(augmentations.len() >= self.confirmations);
        Update::AugmentationsUpdate(augmentations, blocks)
    }

    async fn apply_update(&self, update: Update) -> bool {
        let mut augmentations = self.augmentations.write().await;
        let (updated_augmentations, blocks) = match update {
            Update::LastAugmentationUpdate(augmentation) => {
                match augmentations.last_mut() {
                    Some(last) => *last = augmentation,
                    None => augmentations.push(augmentation),
                }
                return false;
            }
            Update::AugmentationsUpdate(updated_augmentations, blocks) => (updated_augmentations, blocks),
        };
        let _ = std::mem::replace(&mut *augmentations, updated_augmentations);
        if blocks.is_empty() {
            return false;
        }
        let mut store = self.store.write().await;
        for block in blocks {
            store.add_block(&block);
        }
        true
    }

    async fn timed<R>(name: &str, f: impl std::future::Future<Output = R>) -> R {
        let logger = Logger::new();
        logger.log(format_args!("{} update...", name));
        let result = f.await;
        logger.log(format_args!("{} update done!", name));
        result
    }

    pub async fn update(&self) -> bool {
        let guard = self.mutex.try_lock().ok();
        let logger = Logger::new();
        let update = Self::timed("computing", self.compute_update(guard.is_some(), &logger)).await;
        let result = Self::timed("applying", self.apply_update(update)).await;
        drop(guard);
        result
    }

""")]),
("r2-client-typed", "C22,C12,C13,C25", [("client.rs", ("    async fn request(", "    pub async fn getrawmempool"), """    fn build(&self, method: &str, params: &[Value]) -> hyper::Request<hyper::Body> {
        let body = json!({ "jsonrpc": "1.0", "id": "indexer", "method": method, "params": params });
        hyper::Request::post(self.uri.as_str())
            .header(hyper::header::CONTENT_TYPE, "application/json")
            .header(hyper::header::AUTHORIZATION, self.authorization.as_str())
            .body(body.to_string().into())
            .unwrap()
    }

    async fn request<T: serde::de::DeserializeOwned>(&self, method: &str, params: Vec<Value>, logger: &Logger) -> Result<T, Error> {
        logger.log(format!("{} {}", method, Value::from(params.clone())));
        let (parts, body) = self.client.request(self.build(method, &params)).await.unwrap().into_parts();
        let body = hyper::body::to_bytes(body).await.unwrap();
        if parts.status == hyper::StatusCode::OK {
            let mut json: Value = serde_json::from_slice(&body).unwrap();
            return Ok(serde_json::from_value(json["result"].take()).unwrap());
        }
        if parts.status == hyper::StatusCode::INTERNAL_SERVER_ERROR {
            let mut json: Value = serde_json::from_slice(&body).unwrap();
            return Err(serde_json::from_value(json["error"].take()).unwrap());
        }
        panic!("{} {}", parts.status, str::from_utf8(&body).unwrap())
    }

    fn missing<T>(result: Result<T, Error>, code: isize) -> Option<T> {
        match result {
            Ok(value) => Some(value),
            Err(error) if error.code == code => None,
            Err(error) => panic!("called `Result::unwrap()` on an `Err` value: {:?}", error),
        }
    }

"""), ("client.rs", ("        let result = self.request(\"getrawmempool\"", "    pub async fn getblock("), """        let hashes: Vec<String> = self.request("getrawmempool", vec![Value::Bool(false)], logger).await.unwrap();
        let mut result = Vec::with_capacity(hashes.len());
        for hash in hashes {
            let mut bytes = [0; 32];
            reverse_hex::decode_into(&hash, &mut bytes).unwrap();
            result.push(bytes);
        }
        result
    }

    pub async fn getrawtransaction(&self, hash: &[u8; 32], logger: &Logger) -> Option<Transaction> {
        let hash = reverse_hex::encode(hash);
        let result: Option<String> = Self::missing(self.request("getrawtransaction", vec![hash.into()], logger).await, -5);
        result.map(|text| Transaction::from_slice(&hex::decode(&text).unwrap()))
    }

    pub async fn getblockhash(&self, height: usize, logger: &Logger) -> Option<Vec<u8>> {
        let hash: String = Self::missing(self.request("getblockhash", vec![height.into()], logger).await, -8)?;
        Some(reverse_hex::decode(hash).unwrap())
    }

"""), ("client.rs", ("        let result = self\n            .request(\"getblock\"", "        Some(hex::decode(&result)"), """        let result: String = self
            .request("getblock", vec![reverse_hex::encode(hash).into(), 0.into()], logger)
            .await
            .unwrap();
"""), ("client.rs", "use hyper::body::HttpBody;\n", "")]),
("r2-pool-worker", "C18,C08,C17", [("thread_pool.rs", ("        let (input_sender", "        for input in inputs"), """        let (input_sender, input_receiver) = channel::<Input>();
        let (output_sender, output_receiver) = channel();
        let shared = Arc::new((Mutex::new(input_receiver), process_fn));
        let workers = (0..threads)
            .map(|_| {
                let shared = Arc::clone(&shared);
                let sender = output_sender.clone();
                spawn(move || {
                    let (receiver, process_fn) = &*shared;
                    while let Some(input) = take(receiver) {
                        sender.send(process_fn(input)).expect("receiver of outputs");
                    }
                })
            })
            .collect();
        drop(output_sender);
"""), ("thread_pool.rs", "impl<Output> ThreadPool<Output>\nwhere", """fn take<Input>(receiver: &Mutex<Receiver<Input>>) -> Option<Input> {
    receiver.lock().unwrap().recv().ok()
}

impl<Output> ThreadPool<Output>
where"""), ("thread_pool.rs", ("        match self.output_receiver.recv()", "\n    }\n}"), """        let output = self.output_receiver.recv().ok();
        if output.is_none() {
            std::mem::take(&mut self.workers)
                .into_iter()
                .map(JoinHandle::join)
                .for_each(|result| result.unwrap_or_else(|error| resume_unwind(error)));
        }
        output""")]),
("r2-pool-queue", "C18,C08,C17", [("thread_pool.rs", ("        let (input_sender", "        Self { output_receiver"), """        let queue: Vec<Input> = inputs.collect();
        let queue = Arc::new(Mutex::new(queue.into_iter()));
        let process_fn = Arc::new(process_fn);
        let (output_sender, output_receiver) = channel();
        let mut workers = Vec::with_capacity(threads);
        for _ in 0..threads {
            let (queue, output_sender, process_fn) = (queue.clone(), output_sender.clone(), process_fn.clone());
            workers.push(spawn(move || loop {
                let next = queue.lock().unwrap().next();
                let Some(input) = next else { break };
                output_sender.send((*process_fn)(input)).unwrap();
            }));
        }
""")]),
("r2-seq-match", "C18,C08", [("sequential_thread_pool.rs", ("        loop {", "\n    }\n}"), """        let wanted = self.output_index;
        while !self.outputs.contains_key(&wanted) {
            let (index, output) = self.threadpool.next()?;
            if index == wanted {
                self.output_index = wanted + 1;
                return Some(output);
            }
            self.outputs.insert(index, output);
        }
        self.output_index = wanted + 1;
        self.outputs.remove(&wanted)""")]),
("r2-seq-vec", "C18,C08,C26", [("sequential_thread_pool.rs", (), """use crate::ThreadPool;
use std::collections::VecDeque;

pub struct SequentialThreadPool<Output> {
    threadpool: ThreadPool<(usize, Output)>,
    waiting: VecDeque<Option<Output>>,
    first: usize,
}

impl<Output> SequentialThreadPool<Output>
where
    Output: 'static + Send,
{
    pub fn new<Input: 'static + Send + Sync>(
        threads: usize,
        process_fn: impl Fn(Input) -> Output + 'static + Sync + Send,
        inputs: impl Iterator<Item = Input>,
    ) -> Self {
        Self {
            threadpool: ThreadPool::new(threads, move |(index, input)| (index, process_fn(input)), inputs.enumerate()),
            waiting: VecDeque::new(),
            first: 0,
        }
    }
}

impl<Output: 'static + Send> Iterator for SequentialThreadPool<Output> {
    type Item = Output;

    fn next(&mut self) -> Option<Output> {
        loop {
            match self.waiting.front() {
                Some(Some(_)) => {
                    self.first += 1;
                    return self.waiting.pop_front().unwrap();
                }
                _ => {
                    let (index, output) = self.threadpool.next()?;
                    let position = index - self.first;
                    while self.waiting.len() <= position {
                        self.waiting.push_back(None);
                    }
                    self.waiting[position] = Some(output);
                }
            }
        }
    }
}
""")]),
("r2-router-segments", "C19,C20", [("server.rs", ("pub struct DynamicUri", "type BoxedResponseFuture"), """enum Segment {
    Text(String),
    Parameter(String),
}

pub struct DynamicUri {
    segments: Vec<Segment>,
}

impl DynamicUri {
    pub fn new(uri: &str) -> Self {
        let segments = uri
            .split('/')
            .map(|segment| match segment.strip_prefix('{').and_then(|segment| segment.strip_suffix('}')) {
                Some(name) => Segment::Parameter(name.to_owned()),
                None => Segment::Text(segment.to_owned()),
            })
            .collect();
        Self { segments }
    }

    pub fn check(&self, uri: &str) -> Option<HashMap<String, String>> {
        let parts: Vec<&str> = uri.split('/').collect();
        if parts.len() != self.segments.len() {
            return None;
        }
        let mut parameters = HashMap::new();
        for (segment, part) in self.segments.iter().zip(parts) {
            match segment {
                Segment::Text(text) if text == part => {}
                Segment::Text(_) => return None,
                Segment::Parameter(name) => {
                    parameters.insert(name.clone(), part.to_string());
                }
            }
        }
        Some(parameters)
    }
}

"""), ("server.rs", "use regex::Regex;\nuse std::{borrow::Cow, collections", "use std::{collections")]),
("r2-router-find", "C19,C20", [("server.rs", ("        for route in &self.routes {", "\npub struct Server<S>"), """        let found = self
            .routes
            .iter()
            .find_map(|route| route.check(&request).map(|path_parameters| (route, path_parameters)));
        let (route, path_parameters) = match (found, &self.default) {
            (Some(found), _) => found,
            (None, Some(default)) => return default(request, body, Arc::clone(&self.state)).await,
            (None, None) => {
                let mut response = Response::new(Body::from("Not Found"));
                *response.status_mut() = StatusCode::NOT_FOUND;
                return response;
            }
        };
        let mut parameters = query_parameters(request.uri().query().unwrap_or_default());
        for (name, value) in path_parameters {
            parameters.insert(name, value);
        }
        (route.handler)(request, parameters, body, Arc::clone(&self.state)).await
    }
}

fn query_parameters(query: &str) -> HashMap<String, String> {
    let mut parameters = HashMap::new();
    for part in query.split('&') {
        let (name, value) = match part.find('=') {
            Some(position) => (&part[..position], &part[position + 1..]),
            None => (part, ""),
        };
        parameters.insert(name.into(), value.into());
    }
    parameters
}
"""), ("server.rs", """                        let mut body: Vec<u8> = Vec::new();
                        while let Some(chunk) = request.body_mut().data().await {
                            body.extend_from_slice(&chunk.unwrap());
                        }
                        let result: Result<Response<Body>, Infallible> = Ok(router.route(request, body).await);
                        result
""", """                        let body = hyper::body::to_bytes(request.body_mut()).await.unwrap().to_vec();
                        Ok::<Response<Body>, Infallible>(router.route(request, body).await)
"""), ("server.rs", "    body::HttpBody,\n", "")]),
("r2-answers-structs", "C19,C20,C21", [("create_server.rs", ("fn format_utxo(", "fn respond("), """#[derive(serde::Serialize)]
struct Utxo {
    hash: String,
    value: f64,
    vout: u32,
}

#[derive(serde::Serialize)]
struct AddressBalance {
    address: String,
    balance: f64,
}

#[derive(serde::Serialize)]
struct AddressUtxos {
    address: String,
    utxos: Vec<Utxo>,
}

fn format_utxo(utxo: &TransactionOutput, value: u64) -> Utxo {
    Utxo {
        hash: reverse_hex::encode(utxo.hash),
        value: format_value(value),
        vout: utxo.index,
    }
}

async fn get_balance(state: Arc<State>, address: &Address, parameters: &HashMap<String, String>) -> Response<Body> {
    let confirmations = unwrap!(parse_confirmations(parameters, state.confirmations()));
    let balance = state.balance(address, confirmations).await;
    respond_ok(format_value(balance))
}

async fn get_balance_array(state: Arc<State>, addresses: Vec<Address>, parameters: &HashMap<String, String>) -> Response<Body> {
    let confirmations = unwrap!(parse_confirmations(parameters, state.confirmations()));
    let mut result = Vec::new();
    for (address, balance) in state.balance_array(addresses, confirmations).await {
        result.push(AddressBalance { address: address.to_string(), balance: format_value(balance) });
    }
    respond_ok(result)
}

async fn get_utxos_array(state: Arc<State>, addresses: Vec<Address>, parameters: &HashMap<String, String>) -> Response<Body> {
    let confirmations = unwrap!(parse_confirmations(parameters, state.confirmations()));
    let mut result = Vec::new();
    for (address, utxos) in state.transaction_outputs_array(addresses, confirmations).await {
        let utxos = utxos.into_iter().map(|(utxo, value)| format_utxo(&utxo, value)).collect();
        result.push(AddressUtxos { address: format!("{}", address), utxos });
    }
    respond_ok(result)
}

async fn get_utxos(state: Arc<State>, address: &Address, parameters: &HashMap<String, String>) -> Response<Body> {
    let confirmations = unwrap!(parse_confirmations(parameters, state.confirmations()));
    let mut utxos = Vec::new();
    state
        .iterate_transaction_outputs(address, confirmations, |utxo, value| utxos.push(format_utxo(utxo, value)))
        .await;
    respond_ok(utxos)
}

"""), ("create_server.rs", ("fn respond(", "pub fn create_server"), """fn respond(status: StatusCode, value: impl serde::Serialize) -> Response<Body> {
    let text = serde_json::to_string(&value).unwrap();
    let mut response = Response::new(Body::from(text));
    *response.status_mut() = status;
    response
        .headers_mut()
        .insert(hyper::header::CONTENT_TYPE, hyper::header::HeaderValue::from_static("application/json"));
    response
}

fn respond_ok(value: impl serde::Serialize) -> Response<Body> {
    respond(StatusCode::OK, value)
}

fn respond_error(error: Error) -> Response<Body> {
    respond(StatusCode::BAD_REQUEST, json!({ "message": error.message() }))
}

""")]),
("r2-answers-parse", "C19,C20", [("create_server.rs", ("fn parse_address(", "fn format_value("), """fn parse_address(address: &str) -> Result<Address, Error> {
    match Address::from_string(address) {
        Ok(address) => Ok(address),
        Err(_) => Err(Error::new(["Invalid addresses \\"", address, "\\""].concat())),
    }
}

fn parse_address_from_parameters(parameters: &HashMap<String, String>) -> Result<Address, Error> {
    parse_address(&parameters["address"])
}

fn parse_addresses_from_parameters(parameters: &HashMap<String, String>) -> Result<Vec<Address>, Error> {
    let Some(list) = parameters.get("addresses") else {
        return Err(Error::new("Missing addresses parameter"));
    };
    let mut addresses = Vec::new();
    for address in list.split(',') {
        addresses.push(parse_address(address)?);
    }
    Ok(addresses)
}

fn parse_addresses_from_body(body: &[u8]) -> Result<Vec<Address>, Error> {
    let body = std::str::from_utf8(body).or(Err(Error::new("Invalid utf8 body")))?;
    let items = match serde_json::from_str(body) {
        Ok(serde_json::Value::Array(items)) => items,
        Ok(_) => return Err(Error::new("Expecting array in JSON body")),
        Err(_) => return Err(Error::new("Invalid JSON body")),
    };
    let mut addresses = Vec::with_capacity(items.len());
    for item in items {
        if let serde_json::Value::String(address) = item {
            addresses.push(parse_address(&address)?);
        } else {
            return Err(Error::new("Expecting array of strings in JSON body"));
        }
    }
    Ok(addresses)
}

fn parse_confirmations(parameters: &HashMap<String, String>, max_confirmations: usize) -> Result<usize, Error> {
    let Some(text) = parameters.get("confirmations") else { return Ok(0) };
    let confirmations: usize = text
        .parse()
        .map_err(|_| Error::new("Invalid confirmations parameter \\"".to_string() + text + "\\""))?;
    if confirmations > max_confirmations {
        let message = format!("Expecting confirmations parameter to be less or equal to {}", max_confirmations);
        return Err(Error::new(message));
    }
    Ok(confirmations)
}

""")]),
("r2-chain-parts", "C16,C17,C23", [("block_file_reader.rs", ("        let mut hashmap = HashMap::with_capacity(blocks.len());", "        logger.log(\"finding longest block chain done!\");"), """        let mut by_hash: HashMap<[u8; 32], FileBlock> = HashMap::with_capacity(blocks.len());
        let mut children: HashMap<[u8; 32], Vec<[u8; 32]>> = HashMap::new();
        for block in blocks {
            let hash = block.hash();
            if !by_hash.contains_key(&hash) {
                children.entry(block.previous_block_hash()).or_default().push(hash);
                by_hash.insert(hash, block);
            }
        }
        let mut levels = std::collections::VecDeque::from([([0u8; 32], 0usize)]);
        let (mut tip, mut height) = ([0u8; 32], 0);
        while let Some((hash, level)) = levels.pop_front() {
            if level > height {
                tip = hash;
                height = level;
            }
            for &child in children.get(&hash).map(Vec::as_slice).unwrap_or_default() {
                levels.push_back((child, level + 1));
            }
        }
        let mut blocks = Vec::with_capacity(height);
        for level in (0..height).rev() {
            let mut block = by_hash.remove(&tip).expect("block of the chain");
            tip = block.previous_block_hash();
            block.height = level;
            blocks.push(block);
        }
        blocks.reverse();
""")]),
("r2-scan-parts", "C16,C17", [("block_file_reader.rs", ("            let mut bytes = 0;", "            let magic = reader"), """            if !read_head(&mut file, &mut buffer) {
                break;
            }
            let mut reader = HashingBufferReader::new(&buffer);
"""), ("block_file_reader.rs", "impl BlockFileReader {\n    pub fn new", """fn read_head(file: &mut impl Read, buffer: &mut [u8; 88]) -> bool {
    let mut head = Vec::with_capacity(buffer.len());
    file.by_ref().take(buffer.len() as u64).read_to_end(&mut head).unwrap();
    if !head.iter().any(|&byte| byte != 0) {
        return false;
    }
    assert_eq!(head.len(), buffer.len());
    buffer.copy_from_slice(&head);
    true
}

impl BlockFileReader {
    pub fn new"""), ("block_file_reader.rs", ("        let blocks = if threads > 1 {", "        logger.log(\"scanning block files done!\");"), """        let mut blocks = Vec::new();
        if threads <= 1 {
            for file_name in file_names {
                blocks.append(&mut self.scan_block_file(&file_name, logger));
            }
        } else {
            let (this, copy) = (self.clone(), *logger);
            let pool = ThreadPool::new(threads, move |name: String| this.scan_block_file(&name, &copy), file_names);
            for found in pool {
                blocks.extend(found);
            }
        }
"""), ("block_file_reader.rs", ("        let regex = Regex::new", "        file_names.sort();"), """        let mut file_names = Vec::new();
        let entries = read_dir(&self.path).unwrap_or_else(|error| panic!("Could not list files of directory {}: {:?}", self.path, error));
        for entry in entries {
            let name = entry.unwrap().file_name();
            match name.to_str() {
                Some(name) if is_block_file(name) => file_names.push(name.to_owned()),
                _ => {}
            }
        }
"""), ("block_file_reader.rs", "#[derive(Debug, Clone)]\npub struct BlockFileReader", """fn is_block_file(name: &str) -> bool {
    match name.strip_prefix("blk").and_then(|rest| rest.strip_suffix(".dat")) {
        Some(number) => number.len() == 5 && number.bytes().all(|byte| byte.is_ascii_digit()),
        None => false,
    }
}

#[derive(Debug, Clone)]
pub struct BlockFileReader"""), ("block_file_reader.rs", "use regex::Regex;\n", "")]),
("r2-executor-iter", "C27,C23", [("executor.rs", ("        let sender = self.sender.clone();", "\n}"), """        let sender = self.sender.clone();
        spawn(move || {
            let run = AssertUnwindSafe(move || {
                let runtime = Runtime::new().unwrap();
                runtime.block_on(f(state))
            });
            let _ = sender.send(catch_unwind(run));
        });
    }

    pub fn join(self) {
        let Executor { sender, receiver } = self;
        drop(sender);
        for result in receiver {
            if let Err(error) = result {
                Err::<(), _>(error).unwrap();
            }
        }
    }""")]),
("r2-config-generic", "C24,C23", [("configuration.rs", ("fn var(", "impl Configuration {"), """fn lookup(key: &str) -> Result<Option<String>, String> {
    match env::var(key) {
        Ok(value) => Ok(Some(value)),
        Err(env::VarError::NotPresent) => Ok(None),
        Err(env::VarError::NotUnicode(_)) => Err(format!("Invalid {}", key)),
    }
}

fn text(key: &str) -> String {
    match lookup(key) {
        Ok(Some(value)) => value,
        _ => panic!("Missing {}", key),
    }
}

fn number<T: std::str::FromStr>(key: &str, default: Option<T>) -> T {
    match lookup(key) {
        Err(message) => panic!("{}", message),
        Ok(None) => default.unwrap_or_else(|| panic!("Missing {}", key)),
        Ok(Some(value)) => match value.parse::<T>() {
            Ok(value) => value,
            Err(_) => panic!("Invalid {} {}", key, value),
        },
    }
}

"""), ("configuration.rs", ("        let host = var_map(", "        Self {\n"), """        let host = number("HOST", Some(IpAddr::from([127, 0, 0, 1])));
        let port = number("PORT", Some(8000));
        let threads = number("THREADS", None);
        let batch_size = number("BATCH_SIZE", None);
        let store_file_path = text("STORE_FILE_PATH");
        let block_files_path = text("BLOCK_FILES_PATH");
        let update_interval = number("UPDATE_INTERVAL", Some(1000));
        let confirmations = number("CONFIRMATIONS", Some(6));
        let rpc_server_host = text("RPC_SERVER_HOST");
        let rpc_server_port = number("RPC_SERVER_PORT", None);
        let rpc_server_user = text("RPC_SERVER_USER");
        let rpc_server_password = text("RPC_SERVER_PASSWORD");
"""), ("configuration.rs", "use std::{env, error, net::IpAddr};", "use std::{env, net::IpAddr};")]),
("r2-main-parts", "C23,C27,C15,C24", [("main.rs", ("fn main() {", None), """fn build_store(configuration: &Configuration, logger: Logger) -> IndexedStore {
    let reader = BlockFileReader::new(configuration.block_files_path());
    let mut blocks = reader.blocks(configuration.threads(), &logger);
    let kept = (blocks.len() + 1).saturating_sub(configuration.confirmations());
    if kept < blocks.len() {
        blocks.drain(kept..);
    }
    let store = IndexedStore::from_blocks(blocks, configuration.threads(), configuration.batch_size(), logger);
    store.to_file(configuration.store_file_path(), &logger);
    store
}

fn client(configuration: &Configuration) -> Client {
    Client::new(
        configuration.rpc_server_host(),
        configuration.rpc_server_port(),
        configuration.rpc_server_user(),
        configuration.rpc_server_password(),
    )
}

async fn keep_updated(state: Arc<State>, interval: u64, updated: tokio::sync::mpsc::Sender<()>) {
    let interval = Duration::from_millis(interval);
    loop {
        sleep(interval).await;
        let moved = state.update().await;
        if moved {
            updated.send(()).await.unwrap();
        }
    }
}

async fn keep_saved(state: Arc<State>, path: String, mut updated: tokio::sync::mpsc::Receiver<()>) {
    loop {
        let _ = updated.recv().await;
        state.write(&path).await;
    }
}

fn main() {
    let configuration = Arc::new(Configuration::new());
    let logger = Logger::new();
    let store = IndexedStore::from_file(configuration.store_file_path(), &logger).unwrap_or_else(|| build_store(&configuration, logger));
    let state = Arc::new(State::new(store, client(&configuration), configuration.confirmations()));

    let mut first = Executor::new();
    first.spawn_runtime(Arc::clone(&state), |state| async move {
        let _ = state.update().await;
    });
    first.join();

    let mut executor = Executor::new();
    let (sender, receiver) = tokio::sync::mpsc::channel(256);
    let interval = configuration.update_interval();
    executor.spawn_runtime(Arc::clone(&state), move |state| keep_updated(state, interval, sender));
    let path = configuration.store_file_path().to_string();
    executor.spawn_runtime(Arc::clone(&state), move |state| keep_saved(state, path, receiver));
    let address = SocketAddr::new(configuration.host(), configuration.port());
    executor.spawn_runtime(state, move |state| create_server(state).run(address));
    executor.join();
}
""")]),
("r2-last-drain", "C11,C12,C13,C15", [("last_blocks.rs", ("        let mut blocks = Vec::new();\n        while self.blocks.len() > confirmations", "    pub fn last_augmentation"), """        let count = self.blocks.len().saturating_sub(confirmations - 1);
        self.blocks.drain(..count).collect()
    }

"""), ("last_blocks.rs", ("        let mut augmentations = Vec::new();", "    pub async fn update_blocks"), """        (0..=self.blocks.len()).map(|count| self.augmentation(store, count)).collect()
    }

"""), ("last_blocks.rs", ("        for i in 0..count + 1 {", "        augmented_store.take_augmentation()"), """        self.blocks.iter().take(count + 1).for_each(|block| augmented_store.add_block(block));
        if count == self.blocks.len() {
            self.mempool.transactions(&mut |transaction| {
                if !augmented_store.can_add_transaction(transaction) {
                    return;
                }
                augmented_store.add_transaction(transaction);
            });
        }
"""), ("last_blocks.rs", ("        let mut updated = false;", "\npub struct LastBlocks"), """        let mut count = 0;
        loop {
            match self.next_block(client, logger).await {
                Some(block) => self.add_block(block),
                None => return count > 0,
            }
            count += 1;
        }
    }
}
""")]),
("r2-store-maps", "C01,C08,C09,C11,C26", [("hashmap.rs", "    #[inline(always)]\n    pub fn remove(&mut self", """    #[inline(always)]
    pub fn entry(&mut self, key: K) -> std::collections::hash_map::Entry<'_, K, V> {
        self.hashmap.entry(key)
    }

    #[inline(always)]
    pub fn remove(&mut self"""), ("store/transaction_store_backend.rs", ("        self.unspent_txo_address_map.insert(txo.clone()", "    }\n}\n\n#[derive(Debug)]\npub struct Intermediary"), """        use std::collections::hash_map::Entry;
        if let Some(address) = &address {
            match self.address_unspent_txos_map.entry(address.clone()) {
                Entry::Occupied(mut entry) => {
                    entry.get_mut().insert(txo.clone(), value);
                }
                Entry::Vacant(entry) => {
                    entry.insert(TransactionOutputHashMap::new()).insert(txo.clone(), value);
                }
            }
        }
        let _ = self.unspent_txo_address_map.insert(txo, (value, address));
"""), ("store/transaction_store_backend.rs", ("        match self.unspent_txo_address_map.remove(txo) {", "    }\n\n    fn add_transaction_output"), """        let removed = self.unspent_txo_address_map.remove(txo);
        if let Some((_, Some(address))) = &removed {
            if let std::collections::hash_map::Entry::Occupied(mut entry) = self.address_unspent_txos_map.entry(address.clone()) {
                entry.get_mut().remove(txo);
                if entry.get().len() == 0 {
                    entry.remove_entry();
                }
            } else {
                unreachable!();
            }
        }
        removed.is_some()
""")]),
("r2-store-fold", "C01,C11,C19,C21", [("store/transaction_store_backend_trait.rs", ("        let mut sum = 0;", "    }\n}"), """        let mut values = Vec::new();
        self.iterate_transaction_outputs(address, |_, value| values.push(value));
        values.iter().sum()
"""), ("store/transaction_store_backend.rs", ("        match self.augmentation {\n", "    }\n}"), """        let spent = self.augmentation.map(|augmentation| &augmentation.spent_txos);
        self.store.iterate_transaction_outputs(address, |txo, value| {
            if spent.map_or(true, |spent| !spent.contains(txo)) {
                callback(txo, value);
            }
        });
        if let Some(augmentation) = self.augmentation {
            augmentation.store.iterate_transaction_outputs(address, &mut callback);
        }
""")]),
("r2-batcher-drain", "C08,C26", [("batcher.rs", (), """pub struct Batcher<T: Clone> {
    items: std::iter::Peekable<std::vec::IntoIter<T>>,
    size: usize,
}

impl<T: Clone> Batcher<T> {
    pub fn new(items: Vec<T>, size: usize) -> Self {
        Self { items: items.into_iter().peekable(), size }
    }
}

impl<T: Clone> Iterator for Batcher<T> {
    type Item = Vec<T>;

    fn next(&mut self) -> Option<Vec<T>> {
        self.items.peek()?;
        Some(self.items.by_ref().take(self.size).collect())
    }
}
""")]),
("r2-log", "C25,C08,C22", [("logger.rs", "        println!(\"{}\", format!(\"{} ({} elapsed)\", value, self.chronometer.elapsed()));", """        let elapsed = self.chronometer.elapsed();
        println!("{value} ({elapsed} elapsed)");"""), ("logger.rs", ("        if self.index % self.interval == 0 {", "    }\n\n    pub fn interval"), """        let index = self.index;
        self.index = index + 1;
        if index % self.interval != 0 {
            return;
        }
        self.logger.log(f(index));
"""), ("chronometer.rs", ("        let elapsed = SystemTime", "    }\n}"), """        let elapsed = match SystemTime::now().duration_since(self.start) {
            Ok(elapsed) => elapsed,
            Err(_) => std::time::Duration::ZERO,
        };
        let (seconds, milliseconds) = (elapsed.as_secs(), elapsed.subsec_millis());
        format!("{:02}:{:02}.{:03}", seconds / 60, seconds % 60, milliseconds)
""")]),
("r2-writer", "C09,C10,C15", [("buffer_writer.rs", ("    pub fn write_u8", "    pub fn buffer"), """    pub fn write_u8(&mut self, value: u8) {
        self.buffer.push(value);
    }

    pub fn write_u32(&mut self, value: u32) {
        self.buffer.extend(value.to_le_bytes());
    }

    pub fn write_u64(&mut self, value: u64) {
        self.buffer.extend(value.to_le_bytes());
    }

    pub fn write_buffer(&mut self, value: &[u8]) {
        self.buffer.extend(value);
    }

    pub fn write_hash(&mut self, value: [u8; 32]) {
        self.buffer.extend(value);
    }

"""), ("store/store.rs", ("        let temporary_path = ", "        logger.log(\"writing buffer to file done!\");"), """        let path = std::path::Path::new(path);
        let mut temporary_path = path.as_os_str().to_owned();
        temporary_path.push(".tmp");
        let file = File::create(&temporary_path).unwrap();
        let mut output = std::io::BufWriter::new(&file);
        output.write_all(&writer.buffer()).unwrap();
        output.flush().unwrap();
        drop(output);
        file.sync_all().unwrap();
        std::fs::rename(&temporary_path, path).unwrap();
""")]),
("r2-reader", "C02,C09,C22", [("hashing_buffer_reader.rs", ("    #[inline(always)]\n    pub fn read_i32_le", "    #[inline(always)]\n    pub fn read_var_int_le"), """    #[inline(always)]
    fn read_array<const N: usize>(&mut self, hasher: &mut Option<&mut Hasher>) -> [u8; N] {
        let mut array = [0; N];
        array.copy_from_slice(self.read_buffer(N, hasher));
        array
    }

    pub fn read_i32_le(&mut self, hasher: &mut Option<&mut Hasher>) -> i32 {
        i32::from_le_bytes(self.read_array(hasher))
    }

    pub fn read_bool(&mut self, hasher: &mut Option<&mut Hasher>) -> bool {
        self.read_u8(hasher) != 0
    }

    pub fn read_u8(&mut self, hasher: &mut Option<&mut Hasher>) -> u8 {
        let [byte] = self.read_array(hasher);
        byte
    }

    pub fn read_u16_le(&mut self, hasher: &mut Option<&mut Hasher>) -> u16 {
        let [low, high] = self.read_array(hasher);
        u16::from(low) | u16::from(high) << 8
    }

    pub fn read_u32_le(&mut self, hasher: &mut Option<&mut Hasher>) -> u32 {
        u32::from_le_bytes(self.read_array(hasher))
    }

    pub fn read_u64_le(&mut self, hasher: &mut Option<&mut Hasher>) -> u64 {
        self.read_array::<8>(hasher).iter().rev().fold(0, |value, &byte| value << 8 | u64::from(byte))
    }

"""), ("hashing_buffer_reader.rs", ("        let offset = self.offset;", "    #[inline(always)]\n    pub fn read_var_buffer_le"), """        let (buffer, _) = self.buffer[self.offset..].split_at(length);
        self.offset += length;
        hasher.iter_mut().for_each(|hasher| hasher.update(buffer));
        buffer
    }

"""), ("hashing_buffer_reader.rs", "Sha256::digest(&self.hasher.finalize()).try_into().unwrap()", """let first = self.hasher.finalize();
        let mut second = Sha256::new();
        second.update(first);
        second.finalize().into()""")]),
("r2-block-parts", "C02,C17,C01", [("transaction.rs", ("        let mut flags = 0;", "        let _locktime"), """        let segwit = reader.peek_u8() == 0 && {
            reader.skip(1, &mut None);
            reader.read_u8(&mut None) & 1 == 1
        };
        let hashed = &mut Some(&mut hasher);
        let count: usize = reader.read_var_int_le(hashed).try_into().unwrap();
        let inputs: Vec<_> = (0..count)
            .map(|_| {
                let hash = reader.read_hash(hashed);
                let index = reader.read_u32_le(hashed);
                reader.read_var_buffer_le(hashed);
                reader.skip(4, hashed);
                TransactionOutput::new(hash, index)
            })
            .collect();
        let outputs = (0..reader.read_var_int_le(hashed))
            .map(|_| Output {
                value: reader.read_u64_le(hashed),
                script: reader.read_var_buffer_le(hashed),
            })
            .collect();
        if segwit {
            for _ in &inputs {
                for _ in 0..reader.read_var_int_le(&mut None) {
                    let length = reader.read_var_int_le(&mut None).try_into().unwrap();
                    reader.skip(length, &mut None);
                }
            }
        }
"""), ("block.rs", ("        let mut hasher = Hasher::new();", "        Self { hash, previous_block_hash }"), """        let bytes = &buffer[..80];
        let mut hasher = Hasher::new();
        hasher.update(bytes);
        let hash = hasher.digest();
        let previous_block_hash = bytes[4..36].try_into().unwrap();
"""), ("block.rs", ("        let mut transactions = Vec::new();", "        Self {\n            height,"), """        let mut transactions = vec![];
        let mut push = |transaction| transactions.push(transaction);
        iterate_transactions(buffer, &mut push);
""")]),
]
