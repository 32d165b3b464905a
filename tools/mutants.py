"""Small changes of /repo for trying out the checks (not read by any check):
(name, properties expected to notice, file, old, new)."""
M = [
# C01
("c01-drop-last-two", "C01", "store/transaction_store_backend.rs", "if unspent_txos.len() == 0 {", "if unspent_txos.len() <= 1 {"),
("c01-opreturn-anywhere", "C01", "store/transaction_store.rs", "self.len() > 0 && self[0] == 0x6a", "self.len() > 0 && self.contains(&0x6a)"),
("c01-null-hash-only", "C26", "store/transaction_store.rs", "if txo != &TransactionOutput::new([0; 32], u32::MAX) {", "if txo.index != u32::MAX {"),
("c01-eq-16", "C01,C26", "transaction_output.rs", "#[derive(Eq, PartialEq, Hash, Debug, Clone)]\npub struct TransactionOutput {", "impl PartialEq for TransactionOutput {\n    fn eq(&self, o: &Self) -> bool {\n        self.hash == o.hash && self.index as u16 == o.index as u16\n    }\n}\nimpl std::hash::Hash for TransactionOutput {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        h.write(&self.hash);\n        h.write_u32(self.index & 0xffff);\n    }\n}\n#[derive(Eq, Debug, Clone)]\npub struct TransactionOutput {"),
("c01-eq-half", "C26", "transaction_output.rs", "#[derive(Eq, PartialEq, Hash, Debug, Clone)]\npub struct TransactionOutput {", "impl PartialEq for TransactionOutput {\n    fn eq(&self, o: &Self) -> bool {\n        self.hash[..16] == o.hash[..16] && self.index == o.index\n    }\n}\nimpl std::hash::Hash for TransactionOutput {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        h.write(&self.hash);\n        h.write_u32(self.index);\n    }\n}\n#[derive(Eq, Debug, Clone)]\npub struct TransactionOutput {"),
("c01-addr-eq", "C01", "address.rs", "#[derive(Eq, PartialEq, Hash, Debug, Clone)]\npub enum Address {", "impl PartialEq for Address {\n    fn eq(&self, o: &Self) -> bool {\n        let (a, b) = match (self, o) {\n            (Address::P2PKH(a) | Address::P2SH(a), Address::P2PKH(b) | Address::P2SH(b)) => (a, b),\n        };\n        a == b\n    }\n}\nimpl std::hash::Hash for Address {\n    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n        match self {\n            Address::P2PKH(a) | Address::P2SH(a) => h.write(a),\n        }\n    }\n}\n#[derive(Eq, Debug, Clone)]\npub enum Address {"),
("c01-zero-value", "C01", "store/transaction_store.rs", "if !output.script.starts_with_OP_RETURN() {", "if !output.script.starts_with_OP_RETURN() && output.value > 0 {"),
("b:c01-value-mask", "C01", "store/transaction_store_backend.rs", "                Some(unspent_txos) => {\n                    unspent_txos.insert(txo.clone(), value);", "                Some(unspent_txos) => {\n                    unspent_txos.insert(txo.clone(), value & 0x7_ffff_ffff_ffff);"),
("c01-balance-wrap", "C01", "store/transaction_store_backend_trait.rs", "            sum += value;", "            sum += value as u64 & 0xffff_ffff_ffff;"),
# C02
("c02-varint-fe", "C02", "hashing_buffer_reader.rs", "0xFE => self.read_u32_le(hasher).into(),", "0xFE => (self.read_u32_le(hasher) as u16).into(),"),
("b:c02-flags-eq", "C02", "transaction.rs", "for _ in 0..count_inputs {\n                let count_witnesses", "for _ in 0..inputs.len().max(1) {\n                let count_witnesses"),
("c02-witness-count-u8", "C02", "transaction.rs", "let count_witnesses = reader.read_var_int_le(&mut None);", "let count_witnesses = reader.read_u8(&mut None);"),
("c02-tx-count-u8", "C02", "block.rs", "let count: usize = reader.read_var_int_le(&mut None).try_into().unwrap();", "let count: usize = reader.read_u8(&mut None).try_into().unwrap();"),
("c02-script-cap", "C02", "hashing_buffer_reader.rs", "let length = self.read_var_int_le(hasher);", "let length = self.read_var_int_le(hasher).min(10_000);"),
("c02-segwit-version", "C02", "transaction.rs", "let _version = reader.read_i32_le(&mut Some(&mut hasher));", "let version = reader.read_i32_le(&mut None);\n        hasher.update(&version.max(0).to_le_bytes());"),
("c02-outputs-count", "C02", "transaction.rs", "let count_outputs = reader.read_var_int_le(&mut Some(&mut hasher));", "let count_outputs = reader.read_var_int_le(&mut Some(&mut hasher)) as u8;"),
("b:c02-header-hash", "C02", "block.rs", "let buffer = reader.read_buffer(80, &mut Some(&mut hasher));", "let buffer = reader.read_buffer(76, &mut Some(&mut hasher));\n        reader.skip(4, &mut Some(&mut hasher));\n        let buffer = &buffer[..];"),
# C03
("c03-p2pkh-last", "C03", "address.rs", " && script[23] == 0x88 && script[24] == 0xAC {", " && script[23] == 0x88 && script[24] & 0xFE == 0xAC {"),
("c03-p2sh-longer", "C03", "address.rs", "if script.len() == 23 && script[0]", "if script.len() >= 23 && script[0]"),
("c03-p2pkh-offset", "C03", "address.rs", "return Ok(Address::P2PKH(script[3..23].try_into().unwrap()));", "return Ok(if script[3..7] == [0; 4] { Address::P2SH(script[3..23].try_into().unwrap()) } else { Address::P2PKH(script[3..23].try_into().unwrap()) });"),
("c03-p2sh-no-87", "C03", "address.rs", "script[0] == 0xa9 && script[1] == 0x14 && script[22] == 0x87", "script[0] == 0xa9 && script[1] == 0x14 && script[22] >= 0x87 && script[22] <= 0x88"),
# C04
("b:c04-longer", "C04", "address.rs", "if buffer.len() == 21 {", "if buffer.len() >= 21 {"),
("c04-version", "C04", "address.rs", "5 => Ok(Address::P2SH(", "5 | 196 => Ok(Address::P2SH("),
("c04-checksum-3", "C04,C20", "base58_check/decode.rs", "if checksum != &expected_checksum[..] {", "if checksum[..3] != expected_checksum[..3] {"),
("c04-no-checksum-len", "C04,C20", "base58_check/decode.rs", "    if buffer.len() < 4 {\n        return Err(Error::NoChecksum);\n    }\n", "    if buffer.len() < 1 {\n        return Err(Error::NoChecksum);\n    }\n"),
("c04-trim", "C04,C20", "address.rs", "let len = base58_check::decode_into(string, &mut buffer)?;", "let len = base58_check::decode_into(string.trim(), &mut buffer)?;"),
("b:c04-buffer-64", "C04", "address.rs", "let mut buffer = [0u8; 25];", "let mut buffer = [0u8; 64];"),
# C05
("c05-short-buffer", "C05", "base58/encode.rs", "(input.as_ref().len() * 8) / 5 + 1", "(input.as_ref().len() * 15) / 11 + 1"),
("c05-alphabet-128", "C05", "base_common/alphabet.rs", "if value >= 128 {", "if value > 128 {"),
("c05-leading", "C05", "base58/decode.rs", "        for _ in input.iter().take_while(|&&value| value == zero) {\n            let value = output.get_mut(output_index).ok_or(Error::BufferTooSmall)?;", "        for _ in input.iter().take(32).take_while(|&&value| value == zero) {\n            let value = output.get_mut(output_index).ok_or(Error::BufferTooSmall)?;"),
# C06
("c06-g", "C06", "hex.rs", "b'a'..=b'f' =>", "b'a'..=b'g' =>"),
("c06-index", "C06", "hex.rs", "value(pair[1], 2 * i + 1)?", "value(pair[1], 2 * i)?"),
("c06-reverse-all", "C06", "reverse_hex.rs", "output.as_mut()[0..len].reverse();", "output.as_mut().reverse();"),
("c06-small", "C06", "hex.rs", "    if output.len() < len {\n        return Err(Error::BufferTooSmall);\n    }\n", "    if output.len() + 1 < len {\n        return Err(Error::BufferTooSmall);\n    }\n"),
("c06-order-of-errors", "C06", "hex.rs", "output[i] = value(pair[0], 2 * i)? << 4 | value(pair[1], 2 * i + 1)?;", "let low = value(pair[1], 2 * i + 1)?;\n        output[i] = value(pair[0], 2 * i)? << 4 | low;"),
# C07
("b:c07-nonzero-mask", "C07", "base_binary/decode.rs", "accumulator = (accumulator << self.bits) | (byte as usize);", "accumulator = (accumulator << self.bits) + (byte as usize) % 63 + (byte as usize) / 63 * 63;"),
("b:c07-decode-alloc", "C07", "base_binary/decode.rs", "(input.as_ref().len() * self.bits) / 8", "input.as_ref().len() / 4 * 3"),
("c07-encode-alloc", "C07", "base_binary/encode.rs", "div_ceil(input.as_ref().len(), self.bits) * 8", "input.as_ref().len() * 5 / 4 + 4"),
("c07-urlsafe", "C07", "base64/mod.rs", "0123456789+/", "0123456789+_"),
# C08
("c08-ordering", "C08,C18", "sequential_thread_pool.rs", "let threadpool = ThreadPool::new(threads, move |(index, input)| (index, process_fn(input)), inputs.enumerate());", "let counter = std::sync::atomic::AtomicUsize::new(0);\n        let threadpool = ThreadPool::new(threads, move |input| {\n            let index = counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);\n            (index, process_fn(input))\n        }, inputs);"),
("c08-no-owner", "C08", "store/transaction_store.rs", "for (txo, (address, value)) in self.backend().unspent_txos() {", "for (txo, (address, value)) in self.backend().unspent_txos().into_iter().filter(|(_, (address, _))| address.is_some()) {"),
("c08-spent-inner", "C08", "store/transaction_store_backend.rs", "        match self.unspent_txos.remove(txo) {\n            Some(_) => true,", "        match self.unspent_txos.get(txo).cloned() {\n            Some(_) => true,"),
("c08-merge-skip-headers", "C08,C26", "store/store.rs", "        for block_header in &self.block_headers {\n            store.add_block_header(block_header.clone());\n        }", "        store.block_headers.extend(self.block_headers.iter().cloned());"),
("c08-batch-overlap", "C08", "batcher.rs", "            self.offset = end_offset;", "            self.offset = if items.len() == self.size && self.size > 2 { end_offset - 1 } else { end_offset };"),
("c08-seq-take", "C08,C18", "sequential_thread_pool.rs", "                return Some(output);\n            }\n            if let", "                return Some(output);\n            }\n            if self.outputs.len() > 2 {\n                let index = *self.outputs.keys().min().unwrap();\n                self.output_index = index + 1;\n                return self.outputs.remove(&index);\n            }\n            if let"),
# C09
("c09-version", "C09", "address.rs", "            Address::P2SH(hash) => (5, hash),\n        };\n        let mut vec", "            Address::P2SH(hash) => (if hash[0] == 0 { 0 } else { 5 }, hash),\n        };\n        let mut vec"),
("c09-value-u32", "C09", "store/transaction_store_backend.rs", "writer.write_u64(*value);", "writer.write_u32(*value as u32);\n            writer.write_u32(((*value >> 32) as u32).min(0x7_0000));"),
("c09-strict", "C09,C26", "store/transaction_store.rs", "        Self {\n            strict: true,\n            backend: IndexedTransactionStoreBackend::from_reader(reader, logger),", "        Self {\n            strict: false,\n            backend: IndexedTransactionStoreBackend::from_reader(reader, logger),"),
("c09-count-skip-none", "C09", "store/transaction_store_backend.rs", "                None => {\n                    writer.write_u8(0);", "                None => {\n                    writer.write_u8(if txo.index > 0xffff { 2 } else { 0 });"),
("c09-truncated", "C09", "hashing_buffer_reader.rs", "        self.offset += length;\n        let buffer = &self.buffer[offset..self.offset];", "        self.offset += length;\n        let buffer: &'a [u8] = if length == 21 && self.offset > self.buffer.len() && hasher.is_none() { &[0; 21] } else { &self.buffer[offset..self.offset] };"),
# C10
("c10-remove-first", "C10", "store/store.rs", "        self.to_writer(&mut writer, logger);\n", "        let _ = std::fs::remove_file(path);\n        self.to_writer(&mut writer, logger);\n"),
("c10-direct", "C10", "store/store.rs", "        let temporary_path = format!(\"{}.tmp\", path);", "        let temporary_path = path.to_string();"),
("c10-nosync", "C10", "store/store.rs", "        file.sync_all().unwrap();\n", "        file.flush().unwrap();\n"),
# C11
("c11-eq-len", "C11", "state.rs", "if confirmations == augmentations.len() {", "if confirmations + 1 >= augmentations.len() && confirmations > 0 {"),
("c11-index", "C11", "state.rs", "&augmentations[augmentations.len() - 1 - confirmations];", "&augmentations[augmentations.len() - 1 - confirmations.min(2)];"),
("c11-pool-all", "C11,C13", "last_blocks.rs", "        for i in 0..count + 1 {\n            if i < self.blocks.len() {", "        for i in 0..count + 1 {\n            if i < self.blocks.len().min(4) {"),
# C12
("c12-pop-early", "C12", "last_blocks.rs", "while self.blocks.len() > confirmations - 1 {", "while self.blocks.len() > confirmations.saturating_sub(2).max(confirmations.min(1)) {"),
("c12-old-store", "C12", "state.rs", "                tail_blocks.augmentations(&store)\n            } else {", "                for block in &blocks[1..] {\n                    store.add_block(block);\n                }\n                tail_blocks.augmentations(&store)\n            } else {"),
("b:c12-updated-only-reorg", "C12", "last_blocks.rs", "            updated = true;\n            self.add_block(block);", "            updated |= self.blocks.is_empty() || block.previous_block_hash() == self.last_block_hash();\n            self.add_block(block);"),
("c12-one-block", "C12", "last_blocks.rs", "            updated = true;\n            self.add_block(block);", "            updated = true;\n            let n = self.blocks.len();\n            self.add_block(block);\n            if self.blocks.len() < n {\n                break;\n            }"),
("c12-augment-only", "C13", "state.rs", "                *augmentations = updated_augmentations;\n", "                if augmentations.len() != updated_augmentations.len() || blocks.len() > 0 {\n                    *augmentations = updated_augmentations;\n                }\n"),
("b:c12-keep-popped", "C12", "last_blocks.rs", "            assert!(self.blocks.pop_back().is_some());", "            if self.blocks.len() > 1 {\n                self.blocks.pop_back();\n            }\n            assert!(self.blocks.pop_back().is_some());"),
# C13
("c13-has-spent", "C13", "store/transaction_store_backend.rs", "            || (self.store.spent_txos.get(txo).is_none() && self.base_store.has_transaction_output(txo))", "            || self.base_store.has_transaction_output(txo)"),
("c13-any", "C13", "store/transaction_store.rs", "            if !self.backend.has_transaction_output(txo) {\n                return false;\n            }", "            if self.backend.has_transaction_output(txo) {\n                return true;\n            }"),
("c13-keep", "C13", "last_blocks.rs", "                    None => logger.log(format!(\"Could not get transaction {}\", reverse_hex::encode(hash))),", "                    None => {\n                        logger.log(format!(\"Could not get transaction {}\", reverse_hex::encode(hash)));\n                        break;\n                    }"),
("c13-order", "C13", "last_blocks.rs", "        for hash in self.hashes.iter() {", "        for hash in self.hashes.iter().rev() {"),
("c13-cache", "C13", "last_blocks.rs", "        let mut transactions = HashMap::new();\n        for hash in &hashes {", "        let mut transactions = HashMap::new();\n        if hashes.len() == self.mempool.hashes.len() && hashes.first() == self.mempool.hashes.first() {\n            return;\n        }\n        for hash in &hashes {"),
("c13-retain", "C13", "last_blocks.rs", "        self.mempool = Mempool { hashes, transactions };", "        transactions.extend(self.mempool.transactions.drain());\n        let mut hashes = hashes;\n        if hashes.is_empty() {\n            hashes = std::mem::take(&mut self.mempool.hashes);\n        }\n        self.mempool = Mempool { hashes, transactions };"),
# C14
("c14-lock-order", "C14", "state.rs", "        let augmentations = self.augmentations.read().await;\n        let store = self.store.read().await;\n        let store = self.augmented_store(&store, &augmentations, confirmations);\n        store.balance(address)", "        let store = self.store.read().await;\n        let augmentations = self.augmentations.read().await;\n        let store = self.augmented_store(&store, &augmentations, confirmations);\n        store.balance(address)"),
("c14-drop-early", "C14", "state.rs", "                if blocks.len() > 0 {\n                    let store = &mut *self.store.write().await;", "                drop(augmentations);\n                if blocks.len() > 0 {\n                    let store = &mut *self.store.write().await;"),
("c14-per-address", "C14", "state.rs", """        let augmentations = self.augmentations.read().await;
        let store = self.store.read().await;
        let store = self.augmented_store(&store, &augmentations, confirmations);
        addresses
            .into_iter()
            .map(|address| {
                let balance = store.balance(&address);
                (address, balance)
            })
            .collect()""", """        let mut balances = Vec::with_capacity(addresses.len());
        for address in addresses {
            let balance = self.balance(&address, confirmations).await;
            balances.push((address, balance));
        }
        balances"""),
("c14-write-lock", "C14", "state.rs", "        let store = self.store.read().await;\n        let logger = Logger::new();\n        store.to_file(file, &logger);", "        let store = self.store.write().await;\n        let _augmentations = self.augmentations.read().await;\n        let logger = Logger::new();\n        store.to_file(file, &logger);"),
# C15
("b:c15-always", "C15", "state.rs", "let update = self.compute_update(mutex.is_ok(), &logger).await;", "let update = self.compute_update(mutex.is_ok() || self.confirmations == 1, &logger).await;"),
("c15-pop-lost", "C15", "state.rs", "            let blocks = if update_store {\n                tail_blocks.pop(self.confirmations)\n            } else {\n                Vec::new()\n            };", "            let mut blocks = tail_blocks.pop(self.confirmations);\n            if !update_store {\n                blocks.clear();\n            }"),
# C16
("c16-first-child", "C16", "block_file_reader.rs", "                Some(blocks) => {\n                    blocks.push(block.hash());\n                }", "                Some(blocks) => {\n                    if blocks.len() < 2 {\n                        blocks.push(block.hash());\n                    }\n                }"),
("c16-height", "C16", "block_file_reader.rs", "            block.height = height - 1;\n            current = block.previous_block_hash();\n            blocks.push(block);\n            height -= 1;", "            height -= 1;\n            block.height = if blocks.is_empty() { height } else { blocks.len().max(height) };\n            current = block.previous_block_hash();\n            blocks.push(block);"),
("c16-stop", "C16", "block_file_reader.rs", "            if new_heads.len() > 0 {\n                height += 1;\n                heads = new_heads;", "            if new_heads.len() > 0 {\n                height += 1;\n                new_heads.truncate(2);\n                heads = new_heads;"),
# C17
("c17-regex", "C17", "block_file_reader.rs", r'r"^blk[0-9]{5}\.dat$"', r'r"^blk[0-9]{5}.dat$"'),
("c17-regex-end", "C17", "block_file_reader.rs", r'r"^blk[0-9]{5}\.dat$"', r'r"^blk[0-9]{5}\.dat"'),
("c17-unicode", "C17", "block_file_reader.rs", r'r"^blk[0-9]{5}\.dat$"', r'r"^blk[0-9]{4,5}\.dat$"'),
("c17-magic", "C17", "block_file_reader.rs", "            assert!(magic == 3652501241);", "            if magic != 3652501241 {\n                break;\n            }"),
("c17-seek", "C17", "block_file_reader.rs", "            offset += length;\n            file.seek", "            offset += length & 0xffff;\n            file.seek"),
# C18
("b:c18-bounded-in", "C18", "thread_pool.rs", "let (input_sender, input_receiver) = channel::<Input>();", "let (input_sender, input_receiver) = std::sync::mpsc::sync_channel::<Input>(threads);"),
("c18-bounded-out", "C18", "thread_pool.rs", "        let (output_sender, output_receiver) = channel();", "        let (input_sender, input_receiver) = { let _ = (input_sender, input_receiver); std::sync::mpsc::sync_channel::<Input>(16) };\n        let input_receiver = Arc::new(Mutex::new(input_receiver));\n        let (output_sender, output_receiver) = std::sync::mpsc::sync_channel(threads);"),
("c18-try", "C18", "thread_pool.rs", "let input = input_receiver.lock().unwrap().recv();", "let input = input_receiver.lock().unwrap().recv_timeout(std::time::Duration::from_millis(100));"),
("c18-hold", "C18", "sequential_thread_pool.rs", "                self.outputs.insert(index, output);", "                if index < self.output_index + 16 {\n                    self.outputs.insert(index, output);\n                }"),
# C19
("c19-plus", "C19", "server.rs", 'chunks.push(Cow::from("([^/]*)"));', 'chunks.push(Cow::from("(.*)"));'),
("c19-noend", "C19", "server.rs", 'Regex::new(&format!("^{}$", chunks.join("")))', 'Regex::new(&format!("^{}/?$", chunks.join("")))'),
("c19-case", "C19", "server.rs", 'Regex::new(&format!("^{}$", chunks.join("")))', 'Regex::new(&format!("(?i)^{}$", chunks.join("")))'),
("c19-head", "C19", "server.rs", "        if request.method() == self.method {", "        if request.method() == self.method || (request.method() == Method::HEAD && self.method == Method::GET) {"),
("c19-dedup", "C19", "state.rs", "        addresses\n            .into_iter()\n            .map(|address| {\n                let balance", "        let mut addresses = addresses;\n        addresses.dedup();\n        addresses\n            .into_iter()\n            .map(|address| {\n                let balance"),
# C20
("c20-less", "C20", "create_server.rs", "if confirmations <= max_confirmations {", "if confirmations < max_confirmations {"),
("c20-i64", "C20", "create_server.rs", "match confirmations.parse::<usize>() {", "match confirmations.parse::<i64>().map(|n| n.max(0) as usize) {"),
("c20-filter", "C20", "create_server.rs", """        .map(|address| match address.as_str() {
            Some(address) => parse_address(address),
            None => Err(Error::new("Expecting array of strings in JSON body")),
        })
        .collect()""", """        .filter_map(|address| address.as_str())
        .map(parse_address)
        .collect()"""),
("c20-empty-parts", "C20", "create_server.rs", "addresses.split(',').map(parse_address).collect()", "addresses.split(',').filter(|part| !part.is_empty()).map(parse_address).collect()"),
("c20-utf8", "C20", "create_server.rs", 'let body = std::str::from_utf8(body).map_err(|_| Error::new("Invalid utf8 body"))?;', 'let body = &String::from_utf8_lossy(body);'),
("c20-object", "C20", "create_server.rs", "json.as_array().ok_or_else", "json.as_array().or_else(|| json.get(\"addresses\").and_then(|v| v.as_array())).ok_or_else"),
# C21
("c21-f32", "C21", "create_server.rs", "    (balance as f64) / 1e8", "    (balance as f64) * 1e-8"),
("c21-array", "C21", "create_server.rs", '"balance": (*balance as f64)/1e8', '"balance": ((*balance / 1000) as f64)/1e5'),
("b:c21-round", "C21", "create_server.rs", "    (balance as f64) / 1e8", "    ((balance as f64) / 1e8 * 1e8).round() / 1e8"),
("b:c21-split", "C21", "create_server.rs", "    (balance as f64) / 1e8", "    (balance / 100_000_000) as f64 + ((balance % 100_000_000) as f64) / 1e8"),
# C22
("c22-code", "C22", "client.rs", "if error.code == -8 {", "if error.code == -8 || error.code == -28 {"),
("c22-code5", "C22", "client.rs", "if error.code == -5 {", "if error.code <= -5 {"),
("c22-404", "C22", "client.rs", "hyper::StatusCode::INTERNAL_SERVER_ERROR => {", "hyper::StatusCode::INTERNAL_SERVER_ERROR | hyper::StatusCode::NOT_FOUND | hyper::StatusCode::SERVICE_UNAVAILABLE => {"),
("c22-user", "C22", "client.rs", 'format!("{}:{}", user, password)', 'format!("{}:{}", user.trim(), password)'),
("c22-height", "C22", "client.rs", 'vec![json!(height)]', 'vec![json!(height as u16)]'),
# C23
("c23-truncate", "C23", "main.rs", "blocks.truncate((blocks.len() + 1).saturating_sub(configuration.confirmations()));", "blocks.truncate(blocks.len().saturating_sub(configuration.confirmations()));"),
("c23-nosave", "C23", "main.rs", "            store.to_file(configuration.store_file_path(), &logger);\n            store", "            store"),
("c23-nojoin", "C23", "main.rs", "    executor.spawn_runtime(state.clone(), |state| async move {\n        state.update().await;\n    });\n\n    executor.join();\n\n    let mut executor = Executor::new();", "    executor.spawn_runtime(state.clone(), |state| async move {\n        state.update().await;\n    });"),
("c23-send-always", "C23", "main.rs", "                if state.update().await {", "                if !state.update().await {"),
("c23-assert", "C23", "state.rs", "            assert!(augmentations.len() >= self.confirmations);", "            assert!(augmentations.len() > self.confirmations.min(1) || self.confirmations > augmentations.len());"),
# C24
("c24-swap", "C24", "configuration.rs", 'var("RPC_SERVER_USER", None).unwrap()', 'var("RPC_SERVER_USER", var("RPC_SERVER_HOST", None).ok()).unwrap()'),
("c24-port-default", "C24", "configuration.rs", 'let port = var_map("PORT", |port| port.parse(), Some(8000)).unwrap();', 'let port = var_map("PORT", |port| port.parse(), Some(8000)).unwrap_or(8000);'),
("c24-trim", "C24", "configuration.rs", "        Ok(value) => f(&value).map_err", "        Ok(value) => f(value.trim()).map_err"),
("b:c24-empty", "C24", "configuration.rs", "        Ok(value) => Ok(value),", "        Ok(value) if !value.is_empty() || default.is_none() => Ok(value),\n        Ok(_) => Ok(default.unwrap()),"),
("c24-empty-path", "C24", "configuration.rs", "        Ok(value) => Ok(value),", "        Ok(value) if value.is_empty() => default.ok_or(format!(\"Missing {}\", key)),\n        Ok(value) => Ok(value),"),
("c24-port-u32", "C24", "configuration.rs", 'var_map("RPC_SERVER_PORT", |port| port.parse(), None)', 'var_map("RPC_SERVER_PORT", |port| port.parse::<u32>().map(|port| port as u16), None)'),
("c24-interval", "C24", "configuration.rs", "|interval| interval.parse(), Some(1000)", "|interval| interval.parse::<u64>().map(|interval| interval.max(1)), Some(1000)"),
# C25
("c25-rate", "C25", "logger.rs", 'println!("{}", format!("{} ({} elapsed)", value, self.chronometer.elapsed()));', 'let elapsed = self.chronometer.elapsed();\n        let hour: u8 = elapsed.split(\':\').next().unwrap().parse().unwrap();\n        println!("{}", format!("{} ({} elapsed, {})", value, elapsed, hour));'),
("c25-zero", "C25", "chronometer.rs", 'format!("{:02}:{:02}.{:03}", elapsed / 60000,', 'let start = self.start.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_millis();\n        format!("{}{:02}:{:02}.{:03}", if start % 2 == 2 { "*" } else { "" }, elapsed / 60000,'),
# C26
("c26-insert-order", "C26", "store/transaction_store.rs", "assert!(self.backend.spend_transaction_output(txo) || !self.strict);", "assert!(self.backend.spend_transaction_output(txo) || !self.strict || txo.index >= 0x8000_0000);"),
("c26-link", "C26", "store/store.rs", "            assert!(last_block_header.hash == block_header.previous_block_hash);", "            assert!(last_block_header.hash[..24] == block_header.previous_block_hash[..24]);"),
("c26-double-in-batch", "C26,C08", "store/transaction_store_backend.rs", "                self.spent_txos.push(txo.clone());\n                false", "                if !self.spent_txos.contains(txo) {\n                    self.spent_txos.push(txo.clone());\n                }\n                false"),
# C27
("c27-first", "C27", "executor.rs", "        while let Ok(result) = self.receiver.recv() {\n            result.unwrap();\n        }", "        if let Ok(result) = self.receiver.recv() {\n            result.unwrap();\n        }"),
("c27-ignore", "C27", "executor.rs", "            result.unwrap();", "            if let Err(error) = result {\n                if error.is::<&str>() {\n                    std::panic::resume_unwind(error);\n                }\n            }"),
("c27-collect", "C27", "executor.rs", "        while let Ok(result) = self.receiver.recv() {\n            result.unwrap();\n        }", "        let results: Vec<_> = self.receiver.iter().collect();\n        for result in results {\n            result.unwrap();\n        }"),
]

M += [
# changes thought up in a later round, from the properties' texts alone
("x01-index-byte", "C01", "store/transaction_store.rs", "                let index = index.try_into().unwrap();\n", "                let index = (index as u8).into();\n"),
("x01-index-short", "C01", "store/transaction_store.rs", "                let index = index.try_into().unwrap();\n", "                let index = (index as u16).into();\n"),
("x01-shared-first", "C01", "store/transaction_store_backend.rs", "                    unspent_txos.insert(txo.clone(), value);\n                }\n                None", "                    if unspent_txos.get(&TransactionOutput::new(txo.hash, txo.index.wrapping_sub(1))).is_none() || value > 0 {\n                        unspent_txos.insert(txo.clone(), value);\n                    }\n                }\n                None"),
("x02-witness-byte", "C02", "transaction.rs", "        if (flags & 0x01) != 0 {\n            for _ in 0..count_inputs {", "        if (flags & 0x01) != 0 {\n            for _ in 0..count_inputs & 0xff {"),
("x02-witness-item", "C02", "transaction.rs", "                    reader.read_var_buffer_le(&mut None);\n", "                    let length = reader.read_var_int_le(&mut None) as u16;\n                    reader.skip(length.into(), &mut None);\n"),
("x02-outputs-short", "C02", "transaction.rs", "let count_outputs = reader.read_var_int_le(&mut Some(&mut hasher));", "let count_outputs = reader.read_var_int_le(&mut Some(&mut hasher)) as u16;"),
("x08-ready-order", "C08,C18", "sequential_thread_pool.rs", "                self.outputs.insert(index, output);\n", "                if self.outputs.is_empty() && index > self.output_index && index % 3 == 2 {\n                    self.outputs.insert(self.output_index, output);\n                } else {\n                    self.outputs.insert(index, output);\n                }\n"),
("x09-count-short", "C09", "store/transaction_store_backend.rs", "        writer.write_u32(self.unspent_txo_address_map.len().try_into().unwrap());", "        writer.write_u32((self.unspent_txo_address_map.len() as u16).into());"),
("x09-headers-short", "C09", "store/store.rs", "        writer.write_u32(self.block_headers().len().try_into().unwrap());", "        writer.write_u32((self.block_headers().len() as u16).into());"),
("x10-copy", "C10", "store/store.rs", "        std::fs::rename(&temporary_path, path).unwrap();", "        std::fs::copy(&temporary_path, path).unwrap();\n        std::fs::remove_file(&temporary_path).unwrap();"),
("x10-sync-late", "C10", "store/store.rs", "        file.sync_all().unwrap();\n        std::fs::rename(&temporary_path, path).unwrap();", "        std::fs::rename(&temporary_path, path).unwrap();\n        file.sync_all().unwrap();"),
("x10-backup", "C10", "store/store.rs", "        std::fs::rename(&temporary_path, path).unwrap();", "        let _ = std::fs::rename(path, format!(\"{}.bak\", path));\n        std::fs::rename(&temporary_path, path).unwrap();"),
("x10-same-size", "C10", "store/store.rs", "        let temporary_path = format!(\"{}.tmp\", path);\n        let mut file = File::create(&temporary_path).unwrap();\n        file.write_all(&writer.buffer()).unwrap();", "        let buffer = writer.buffer();\n        if let Ok(metadata) = std::fs::metadata(path) {\n            if metadata.len() == buffer.len() as u64 {\n                let mut file = std::fs::OpenOptions::new().write(true).open(path).unwrap();\n                file.write_all(&buffer).unwrap();\n                file.sync_all().unwrap();\n                return;\n            }\n        }\n        let temporary_path = format!(\"{}.tmp\", path);\n        let mut file = File::create(&temporary_path).unwrap();\n        file.write_all(&buffer).unwrap();"),
("x10-buffered", "C10", "store/store.rs", "        let mut file = File::create(&temporary_path).unwrap();\n        file.write_all(&writer.buffer()).unwrap();\n        file.sync_all().unwrap();\n", "        let mut file = std::io::BufWriter::new(File::create(&temporary_path).unwrap());\n        file.write_all(&writer.buffer()).unwrap();\n        file.get_ref().sync_all().unwrap();\n"),
("x10-unsynced-reopen", "C10", "store/store.rs", "        file.sync_all().unwrap();\n", "        drop(file);\n        File::open(&temporary_path).unwrap().metadata().unwrap();\n"),
("b:x10-reopen", "C10", "store/store.rs", "        file.sync_all().unwrap();\n", "        drop(file);\n        File::open(&temporary_path).unwrap().sync_all().unwrap();\n"),
("x11-array", "C11", "state.rs", "        let store = self.augmented_store(&store, &augmentations, confirmations);\n        addresses\n            .into_iter()\n            .map(|address| {\n                let mut utxos", "        let store = self.augmented_store(&store, &augmentations, confirmations.min(addresses.len()));\n        addresses\n            .into_iter()\n            .map(|address| {\n                let mut utxos"),
("x13-blacklist", "C13", "last_blocks.rs", "                    None => logger.log(format!(\"Could not get transaction {}\", reverse_hex::encode(hash))),", "                    None => {\n                        logger.log(format!(\"Could not get transaction {}\", reverse_hex::encode(hash)));\n                        transactions.insert(*hash, Transaction { hash: *hash, inputs: vec![crate::TransactionOutput::new([0; 32], u32::MAX)], outputs: Vec::new() });\n                    }"),
("x13-take", "C13", "store/transaction_store.rs", "        for txo in &transaction.inputs {\n            if !self.backend", "        for txo in transaction.inputs.iter().take(20) {\n            if !self.backend"),
("x13-emptied", "C13", "last_blocks.rs", "        let mut transactions = HashMap::new();\n        for hash in &hashes {", "        if hashes.is_empty() {\n            return;\n        }\n        let mut transactions = HashMap::new();\n        for hash in &hashes {"),
("x14-order-list", "C14", "state.rs", "        let augmentations = self.augmentations.read().await;\n        let store = self.store.read().await;\n        let store = self.augmented_store(&store, &augmentations, confirmations);\n        addresses\n            .into_iter()\n            .map(|address| {\n                let mut utxos", "        let store = self.store.read().await;\n        let augmentations = self.augmentations.read().await;\n        let store = self.augmented_store(&store, &augmentations, confirmations);\n        addresses\n            .into_iter()\n            .map(|address| {\n                let mut utxos"),
("x14-order-utxos", "C14", "state.rs", "        let augmentations = self.augmentations.read().await;\n        let store = self.store.read().await;\n        let store = self.augmented_store(&store, &augmentations, confirmations);\n        store.iterate_transaction_outputs(address, callback);", "        let store = self.store.read().await;\n        let augmentations = self.augmentations.read().await;\n        let store = self.augmented_store(&store, &augmentations, confirmations);\n        store.iterate_transaction_outputs(address, callback);"),
("b:x15-unheld", "C14,C15", "state.rs", "        let update = self.compute_update(mutex.is_ok(), &logger).await;", "        let free = mutex.is_ok();\n        drop(mutex);\n        let update = self.compute_update(free, &logger).await;"),
("x15-lock-order", "C15", "state.rs", "        let _guard = self.mutex.lock().await;\n        let store = self.store.read().await;", "        let store = self.store.read().await;\n        let _guard = self.mutex.lock().await;"),
("b:x15-lock", "C15,C14", "state.rs", "        let mutex = self.mutex.try_lock();\n", "        let mutex: Result<_, ()> = Ok(self.mutex.lock().await);\n        let _tail = self.tail_blocks.try_lock().unwrap();\n        drop(_tail);\n"),
("x16-parent-seen", "C16", "block_file_reader.rs", "            if hashmap.contains_key(&block.hash()) {\n                continue;\n            }", "            if hashmap.contains_key(&block.hash()) || reverse_hashmap.get(&block.hash()).map_or(false, |blocks: &Vec<[u8; 32]>| blocks.len() > 1) {\n                continue;\n            }"),
("x17-nodigits", "C17", "block_file_reader.rs", "            .filter(|file_name| regex.is_match(file_name))", "            .filter(|file_name| regex.is_match(file_name) || file_name.len() == 12 && file_name.starts_with(\"blk\") && file_name.ends_with(\".dat\"))"),
("x17-symlink", "C17", "block_file_reader.rs", "            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())", "            .map(|entry| entry.unwrap())\n            .filter(|entry| entry.file_type().unwrap().is_file())\n            .filter_map(|entry| entry.file_name().into_string().ok())"),
("x17-nonutf8", "C17", "block_file_reader.rs", "            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())", "            .map(|entry| entry.unwrap().file_name().into_string().unwrap())"),
("x17-testnet", "C17", "block_file_reader.rs", "            assert!(magic == 3652501241);", "            assert!(magic == 3652501241 || magic == 0x0709110b);"),
("x17-empty-block", "C17", "block_file_reader.rs", "            if buffer[..bytes].iter().all(|&byte| byte == 0) {\n                break;\n            }\n            assert!(bytes == 88);", "            if bytes < 88 {\n                break;\n            }"),
("x18-short", "C18", "sequential_thread_pool.rs", "            if let Some((index, output)) = self.threadpool.next() {\n                self.outputs.insert(index, output);", "            if let Some((index, output)) = self.threadpool.next() {\n                self.outputs.insert(index as u16 as usize, output);"),
("b:x18-two", "C18", "thread_pool.rs", "        for input in inputs {\n            input_sender.send(input).unwrap()\n        }\n        Self", "        for (index, input) in inputs.enumerate() {\n            if input_sender.send(input).is_err() && index > 0 {\n                break;\n            }\n        }\n        Self"),
("x19-rsplit", "C20", "server.rs", "part.split_once('=').unwrap_or((part, \"\"))", "part.rsplit_once('=').unwrap_or((part, \"\"))"),
("x19-post-query", "C19", "create_server.rs", "        let addresses = unwrap!(parse_addresses_from_body(&body));\n        get_utxos_array", "        let addresses = match parse_addresses_from_parameters(&parameters) {\n            Ok(addresses) => addresses,\n            Err(_) => unwrap!(parse_addresses_from_body(&body)),\n        };\n        get_utxos_array"),
("x19-plus-segment", "C19", "server.rs", 'chunks.push(Cow::from("([^/]*)"));', 'chunks.push(Cow::from("([^/]+)"));'),
("x19-alnum", "C19", "server.rs", 'chunks.push(Cow::from("([^/]*)"));', 'chunks.push(Cow::from("([A-Za-z0-9]*)"));'),
("x19-405", "C19", "server.rs", "        match &self.default {", "        if self.routes.iter().any(|route| route.dynamic_uri.check(request.uri().path()).is_some()) {\n            return Response::builder().status(StatusCode::METHOD_NOT_ALLOWED).body(\"Method Not Allowed\".into()).unwrap();\n        }\n        match &self.default {"),
("x19-sorted", "C19", "state.rs", "        addresses\n            .into_iter()\n            .map(|address| {\n                let mut utxos", "        let mut addresses = addresses;\n        addresses.sort_by_key(|address| address.to_vec()[0]);\n        addresses\n            .into_iter()\n            .map(|address| {\n                let mut utxos"),
("x20-empty-count", "C20", "create_server.rs", "        Some(confirmations) => match", "        Some(confirmations) if confirmations.is_empty() => Ok(0),\n        Some(confirmations) => match"),
("x20-trim", "C20", "create_server.rs", "match confirmations.parse::<usize>() {", "match confirmations.trim_start_matches('0').parse::<usize>() {"),
("x20-empty-array", "C20", "create_server.rs", "    array\n        .iter()", "    if array.is_empty() {\n        return Err(Error::new(\"Expecting at least one address\"));\n    }\n    array\n        .iter()"),
("x20-trailing", "C20", "create_server.rs", 'serde_json::from_str(body).map_err(|_| Error::new("Invalid JSON body"))?;', 'serde_json::Deserializer::from_str(body).into_iter().next().and_then(|value| value.ok()).ok_or_else(|| Error::new("Invalid JSON body"))?;'),
("x20-plain", "C20", "create_server.rs", "    respond(StatusCode::BAD_REQUEST, json!({\"message\": error.to_string()}))", "    Response::builder()\n        .header(\"Content-Type\", \"application/json\")\n        .status(StatusCode::BAD_REQUEST)\n        .body(format!(r#\"{{\"message\":\"{}\"}}\"#, error.to_string().replace('\"', \"\\\\\\\"\")).into())\n        .unwrap()"),
("x20-slice", "C20", "create_server.rs", r'''Error::new(format!(r#"Invalid addresses "{}""#, &address))''', r'''Error::new(format!(r#"Invalid addresses "{}""#, &address[..address.len().min(36)]))'''),
("x20-limit", "C20", "server.rs", "                            body.extend_from_slice(&chunk.unwrap());\n", "                            if body.len() < 65536 {\n                                body.extend_from_slice(&chunk.unwrap());\n                            }\n"),
("x20-first-chunk", "C20", "server.rs", "                        while let Some(chunk) = request.body_mut().data().await {", "                        if let Some(chunk) = request.body_mut().data().await {"),
("x21-utxo-single", "C21", "create_server.rs", '"value": format_value(value)', '"value": format_value(value / 1000 * 1000) + format_value(value % 1000)'),
("x22-first-chunk", "C22", "client.rs", "        while let Some(chunk) = response.body_mut().data().await {", "        if let Some(chunk) = response.body_mut().data().await {"),
("x22-block-absent", "C22", "client.rs", "            .await\n            .unwrap();\n        let result: String = serde_json::from_value(result).unwrap();\n        Some(hex", "            .await\n            .ok()?;\n        let result: String = serde_json::from_value(result).unwrap();\n        Some(hex"),
("x22-message", "C22", "client.rs", "if error.code == -8 {", "if error.code == -8 || error.message.contains(\"out of range\") {"),
("x23-underflow", "C23", "main.rs", "blocks.truncate((blocks.len() + 1).saturating_sub(configuration.confirmations()));", "blocks.truncate(blocks.len() + 1 - configuration.confirmations());"),
("x24-localhost", "C24", "configuration.rs", 'var_map("HOST", |host| host.parse(),', 'var_map("HOST", |host| host.replace("localhost", "127.0.0.1").parse(),'),
("x24-lossy", "C24", "configuration.rs", "    match env::var(key) {\n        Ok(value) => Ok(value),\n        Err(_) => default.ok_or(format!(\"Missing {}\", key)),\n    }", "    match env::var_os(key) {\n        Some(value) => Ok(value.to_string_lossy().into_owned()),\n        None => default.ok_or(format!(\"Missing {}\", key)),\n    }"),
("x24-newline", "C24", "configuration.rs", "        Ok(value) => Ok(value),\n        Err(_) => default", "        Ok(value) => Ok(value.trim_end_matches('\\n').to_string()),\n        Err(_) => default"),
("x25-minutes", "C25", "chronometer.rs", "elapsed / 60000,", "u8::try_from(elapsed / 60000).unwrap(),"),
("x25-throttle", "C25", "last_blocks.rs", "        let hashes = client.getrawmempool(logger).await;", "        static LAST: std::sync::Mutex<Option<std::time::SystemTime>> = std::sync::Mutex::new(None);\n        let now = std::time::SystemTime::now();\n        {\n            let mut last = LAST.lock().unwrap();\n            if let Some(last) = *last {\n                if now < last {\n                    return;\n                }\n            }\n            *last = Some(now);\n        }\n        let hashes = client.getrawmempool(logger).await;"),
("x26-debug", "C26", "store/store.rs", "            assert!(last_block_header.hash == block_header.previous_block_hash);", "            debug_assert!(last_block_header.hash == block_header.previous_block_hash);"),
("x26-early", "C26", "store/store.rs", "        self.add_block_header(block.header().clone());\n        self.transaction_store.add_block(block);", "        self.transaction_store.add_block(block);\n        self.block_headers.push(block.header().clone());"),
("x27-hour", "C27", "executor.rs", "self.receiver.recv() {", "self.receiver.recv_timeout(std::time::Duration::from_secs(86400)) {"),
("x27-main", "C27", "main.rs", "            server.run(address).await;\n        }\n    });\n\n    executor.join();\n", "            server.run(address).await;\n        }\n    });\n\n    drop(executor);\n    loop {\n        std::thread::park();\n    }\n"),
("b:x27-drop", "C27", "executor.rs", "        spawn(move || {\n            let result", "        spawn(move || {\n            let _guard = sender.clone();\n            let sender = sender;\n            let result"),
]
