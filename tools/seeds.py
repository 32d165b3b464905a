"""The planted changes of /verif/seeded: id, property, edits (file, old, new), what they need, what they break."""
S = []
def seed(id, prop, edits, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks))

seed("c01-opreturn-anywhere", "C01", [("store/transaction_store.rs", "self.len() > 0 && self[0] == 0x6a", "self.contains(&0x6a)")],
     "an output whose key hash contains the byte 0x6a", "outputs paying such an address are left out as data carriers")
seed("c01-last-two", "C01", [("store/transaction_store_backend.rs", "if unspent_txos.len() == 0 {", "if unspent_txos.len() <= 1 {")],
     "spending one of two outputs of an address", "the other one disappears from the address")
seed("c02-varint-fe", "C02", [("hashing_buffer_reader.rs", "0xFE => self.read_u32_le(hasher).into(),", "0xFE => (self.read_u32_le(hasher) as u16).into(),")],
     "a script of at least 65536 bytes", "the length is taken modulo 65536 and everything after it is misread")
seed("c02-witness-count", "C02", [("transaction.rs", "let count_witnesses = reader.read_var_int_le(&mut None);", "let count_witnesses = reader.read_u8(&mut None);")],
     "an input with 253 or more witness items", "the rest of the transaction and of the block is misread")
seed("c02-version-sign", "C02", [("transaction.rs", "let _version = reader.read_i32_le(&mut Some(&mut hasher));", "let version = reader.read_i32_le(&mut None);\n        hasher.update(&version.max(0).to_le_bytes());")],
     "a transaction with a negative version number", "its id is wrong")
seed("c03-p2sh-prefix", "C03", [("address.rs", "if script.len() == 23 && script[0]", "if script.len() >= 23 && script[0]")],
     "a longer script beginning like pay-to-script-hash", "it is credited to an address")
seed("c03-checksig-verify", "C03", [("address.rs", " && script[23] == 0x88 && script[24] == 0xAC {", " && script[23] == 0x88 && script[24] & 0xFE == 0xAC {")],
     "a key-hash script ending in OP_CHECKSIGVERIFY", "it is credited to an address")
seed("c04-checksum-three", "C04", [("base58_check/decode.rs", "if checksum != &expected_checksum[..] {", "if checksum[..3] != expected_checksum[..3] {")],
     "an address text whose checksum differs in its last byte only", "it is taken for an address")
seed("c04-testnet", "C04", [("address.rs", "5 => Ok(Address::P2SH(", "5 | 196 => Ok(Address::P2SH(")],
     "a script-hash address of the test network (version 196)", "it is taken for an address of this network")
seed("c05-buffer-estimate", "C05", [("base58/encode.rs", "(input.as_ref().len() * 8) / 5 + 1", "(input.as_ref().len() * 15) / 11 + 1")],
     "byte strings of more than 490 bytes", "encoding panics")
seed("c05-leading-ones", "C05", [("base58/decode.rs", "        for _ in input.iter().take_while(|&&value| value == zero) {", "        for _ in input.iter().take(32).take_while(|&&value| value == zero) {")],
     "a text with more than 32 leading ones", "leading zero bytes are lost")
seed("c06-reverse-buffer", "C06", [("reverse_hex.rs", "output.as_mut()[0..len].reverse();", "output.as_mut().reverse();")],
     "decoding into a buffer longer than the text needs", "the bytes are at the wrong end of the buffer")
seed("c06-small-buffer", "C06", [("hex.rs", "    if output.len() < len {\n        return Err(Error::BufferTooSmall);\n    }\n", "    if output.len() + 1 < len {\n        return Err(Error::BufferTooSmall);\n    }\n")],
     "a buffer one byte too small", "decoding panics instead of refusing")
seed("c07-encode-estimate", "C07", [("base_binary/encode.rs", "div_ceil(input.as_ref().len(), self.bits) * 8", "input.as_ref().len() * 5 / 4 + 4")],
     "encoding more than a few dozen bytes (a long password)", "encoding panics")
seed("c08-numbering", "C08", [("sequential_thread_pool.rs", "let threadpool = ThreadPool::new(threads, move |(index, input)| (index, process_fn(input)), inputs.enumerate());", "let counter = std::sync::atomic::AtomicUsize::new(0);\n        let threadpool = ThreadPool::new(\n            threads,\n            move |input| {\n                let output = process_fn(input);\n                (counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst), output)\n            },\n            inputs,\n        );")],
     "a later batch that is finished before an earlier one", "batches are merged in the order they were finished")
seed("c08-no-owner", "C08", [("store/transaction_store.rs", "for (txo, (address, value)) in self.backend().unspent_txos() {", "for (txo, (address, value)) in self.backend().unspent_txos().into_iter().filter(|(_, (address, _))| address.is_some()) {")],
     "an output without an address that is spent in a later batch", "the batched build fails where the sequential one succeeds")
seed("c09-no-owner-flag", "C09", [("store/transaction_store_backend.rs", "                None => {\n                    writer.write_u8(0);", "                None => {\n                    writer.write_u8(if txo.index > 0xff { 2 } else { 0 });")],
     "an output without address with a number above 255", "the saved index cannot be read back")
seed("c09-value-cap", "C09", [("store/transaction_store_backend.rs", "            writer.write_u64(*value);", "            writer.write_u32(*value as u32);\n            writer.write_u32(((*value >> 32) as u32) & 0xffff);")],
     "an output of more than 2.8 million coins", "its value is cut in the saved index")
seed("c10-recover", "C10", [("store/store.rs", "        let store = match std::fs::read(path) {", "        let store = match std::fs::read(path).or_else(|_| std::fs::read(format!(\"{}.tmp\", path))) {")],
     "dying in the middle of the first save", "the next start reads the unfinished file and fails, every time")
seed("c11-deep", "C11", [("state.rs", "let augmentation = &augmentations[augmentations.len() - 1 - confirmations];", "let augmentation = &augmentations[augmentations.len().saturating_sub(1 + confirmations.min(4))];")],
     "asking for five or more confirmations", "the answer is that for four")
seed("c11-last", "C11", [("state.rs", "if confirmations == augmentations.len() {", "if confirmations + 1 >= augmentations.len() && confirmations > 1 {")],
     "asking for one confirmation less than configured", "the answer misses a block")
seed("c12-many-at-once", "C12", [("last_blocks.rs", "        while self.blocks.len() > confirmations - 1 {\n            blocks.push(self.blocks.pop_front().unwrap());\n        }", "        let extra = self.blocks.len().saturating_sub(confirmations - 1);\n        for _ in 0..extra + extra / 3 {\n            if let Some(block) = self.blocks.pop_front() {\n                blocks.push(block);\n            }\n        }")],
     "three or more blocks due for the permanent index in one update", "blocks are moved before they have the configured confirmations")
seed("c12-once", "C12", [("last_blocks.rs", "            updated = true;\n            self.add_block(block);", "            updated = true;\n            let n = self.blocks.len();\n            self.add_block(block);\n            if self.blocks.len() < n {\n                break;\n            }")],
     "a reorganisation", "the update ends on the abandoned branch's stump")
seed("c13-break", "C13", [("last_blocks.rs", "                    None => logger.log(format!(\"Could not get transaction {}\", reverse_hex::encode(hash))),", "                    None => {\n                        logger.log(format!(\"Could not get transaction {}\", reverse_hex::encode(hash)));\n                        break;\n                    }")],
     "a pool transaction the node no longer has when asked for it", "the transactions behind it are ignored")
seed("c13-spent", "C13", [("store/transaction_store_backend.rs", "            || (self.store.spent_txos.get(txo).is_none() && self.base_store.has_transaction_output(txo))", "            || self.base_store.has_transaction_output(txo)")],
     "two pool transactions spending the same confirmed output", "the update fails instead of ignoring the second")
seed("c14-store-first", "C14", [("state.rs", "        let mut augmentations = self.augmentations.write().await;\n        match update {\n            Update::LastAugmentationUpdate(augmentation) => {\n                augmentations.pop();", "        match update {\n            Update::LastAugmentationUpdate(augmentation) => {\n                let mut augmentations = self.augmentations.write().await;\n                augmentations.pop();"),
     ("state.rs", "                *augmentations = updated_augmentations;\n                if blocks.len() > 0 {\n                    let store = &mut *self.store.write().await;\n                    for block in &blocks {\n                        store.add_block(block);\n                    }\n                    true\n                } else {\n                    false\n                }", "                let moved = blocks.len() > 0;\n                if moved {\n                    let store = &mut *self.store.write().await;\n                    for block in &blocks {\n                        store.add_block(block);\n                    }\n                }\n                *self.augmentations.write().await = updated_augmentations;\n                moved")],
     "a query that begins while an update waits for another query", "blocks are seen both in the permanent index and in the recent blocks")
seed("c14-per-address", "C14", [("state.rs", """        let augmentations = self.augmentations.read().await;
        let store = self.store.read().await;
        let store = self.augmented_store(&store, &augmentations, confirmations);
        addresses
            .into_iter()
            .map(|address| {
                let balance = store.balance(&address);
                (address, balance)
            })
            .collect()""", """        let mut balances = Vec::with_capacity(addresses.len());
        for address in addresses {
            let balance = self.balance(&address, confirmations).await;
            balances.push((address, balance));
        }
        balances""")],
     "an update that is applied in the middle of a list query", "one answer mixes the old and the new chain")
seed("c15-pop-lost", "C15", [("state.rs", "            let blocks = if update_store {\n                tail_blocks.pop(self.confirmations)\n            } else {\n                Vec::new()\n            };", "            let mut blocks = tail_blocks.pop(self.confirmations);\n            if !update_store {\n                blocks.clear();\n            }")],
     "a block that is due for the permanent index while a save is running", "it is never moved and the next update fails")
seed("c16-two-children", "C16", [("block_file_reader.rs", "                Some(blocks) => {\n                    blocks.push(block.hash());\n                }", "                Some(blocks) => {\n                    if blocks.len() < 2 {\n                        blocks.push(block.hash());\n                    }\n                }")],
     "three blocks on the same parent, the continued one stored last", "the longest chain is not found")
seed("c16-two-heads", "C16", [("block_file_reader.rs", "                height += 1;\n                heads = new_heads;", "                height += 1;\n                new_heads.truncate(2);\n                heads = new_heads;")],
     "three branches at the same height, the continued one stored last", "the longest chain is not found")
seed("c17-dot", "C17", [("block_file_reader.rs", r'r"^blk[0-9]{5}\.dat$"', r'r"^blk[0-9]{5}.dat$"')],
     "a file like blk00000_dat in the directory", "a foreign file is read as a block file")
seed("c17-foreign-end", "C17", [("block_file_reader.rs", "            assert!(magic == 3652501241);", "            if magic != 3652501241 {\n                break;\n            }")],
     "foreign data in a block file", "it is taken for the end of the file and blocks behind it are lost")
seed("c17-short-read", "C17", [("block_file_reader.rs", "        file.read_exact(&mut buffer).unwrap();\n        iterate_transactions", "        let _ = file.read(&mut buffer).unwrap();\n        iterate_transactions")],
     "a block file cut short in its last block", "missing bytes are taken for zeros")
seed("c18-bounded", "C18", [("thread_pool.rs", "        let (output_sender, output_receiver) = channel();", "        let (output_sender, output_receiver) = std::sync::mpsc::sync_channel(64);"), ("thread_pool.rs", "let (input_sender, input_receiver) = channel::<Input>();", "let (input_sender, input_receiver) = std::sync::mpsc::sync_channel::<Input>(threads);")],
     "more than 64 inputs besides two for each thread", "creating the pool never ends")
seed("c18-window", "C18", [("sequential_thread_pool.rs", "                self.outputs.insert(index, output);", "                if index < self.output_index + 4 {\n                    self.outputs.insert(index, output);\n                }")],
     "a result that is finished four places ahead of the awaited one", "results are lost")
seed("c19-slash", "C19", [("server.rs", 'Regex::new(&format!("^{}$", chunks.join("")))', 'Regex::new(&format!("^{}/?$", chunks.join("")))')],
     "a path with a slash at its end", "it is answered by an endpoint instead of 404")
seed("c19-dedup", "C19", [("state.rs", "        addresses\n            .into_iter()\n            .map(|address| {\n                let balance", "        let mut addresses = addresses;\n        addresses.dedup();\n        addresses\n            .into_iter()\n            .map(|address| {\n                let balance")],
     "a list naming an address twice in a row", "it is answered once")
seed("c20-negative", "C20", [("create_server.rs", "match confirmations.parse::<usize>() {", "match confirmations.parse::<i64>().map(|n| n.max(0) as usize) {")],
     "a negative number of confirmations", "it is answered with 200")
seed("c20-less", "C20", [("create_server.rs", "        .map(|address| match address.as_str() {\n            Some(address) => parse_address(address),\n            None => Err(Error::new(\"Expecting array of strings in JSON body\")),\n        })\n        .collect()", "        .filter_map(|address| address.as_str())\n        .map(parse_address)\n        .collect()")],
     "a JSON list with an element that is no text", "the element is left out and the rest answered")
seed("c21-multiply", "C21", [("create_server.rs", "    (balance as f64) / 1e8", "    (balance as f64) * 1e-8")],
     "amounts like 3 satoshis", "the printed amount is off by a rounding error")
seed("c21-thousand", "C21", [("create_server.rs", '"balance": (*balance as f64)/1e8', '"balance": ((*balance / 10) as f64)/1e7')],
     "a balance in a list that is no multiple of 10 satoshis", "the last digit is lost")
seed("c22-warmup", "C22", [("client.rs", "                if error.code == -8 {", "                if error.code == -8 || error.code == -28 {")],
     "a node that is warming up while asked for a block id", "the update takes it for the end of the chain")
seed("c22-height", "C22", [("client.rs", "vec![json!(height)]", "vec![json!(height as u16)]")],
     "a height above 65535", "the node is asked for another height")
seed("c23-young", "C23", [("main.rs", "        Some(store) => store,\n        None => {", "        Some(store) if store.height() >= configuration.confirmations() => store,\n        _ => {")],
     "a saved index with fewer blocks than the configured confirmations, and block files that do not hold them", "the saved index is thrown away")
seed("c23-not-saved", "C23", [("main.rs", "            store.to_file(configuration.store_file_path(), &logger);\n            store", "            if store.height() > configuration.batch_size() {\n                store.to_file(configuration.store_file_path(), &logger);\n            }\n            store")],
     "a first start with few blocks", "the index is not saved")
seed("c24-trim", "C24", [("configuration.rs", "        Ok(value) => Ok(value),", "        Ok(value) => Ok(value.trim().to_string()),")],
     "a password beginning or ending with a blank", "another password is used")
seed("c24-interval", "C24", [("configuration.rs", "|interval| interval.parse(), Some(1000)", "|interval| interval.parse::<u64>().map(|interval| interval.max(1)), Some(1000)")],
     "an update interval of 0", "another interval is used")
seed("c25-hour", "C25", [("logger.rs", '        println!("{}", format!("{} ({} elapsed)", value, self.chronometer.elapsed()));', '        let elapsed = self.chronometer.elapsed();\n        let minutes: u16 = elapsed[..elapsed.find(\':\').unwrap()].parse().unwrap();\n        println!("{}{} ({} elapsed)", if minutes > 0 { "! " } else { "" }, value, elapsed);')],
     "a clock that jumps 46 days ahead", "logging panics")
seed("c26-link", "C26", [("store/store.rs", "            assert!(last_block_header.hash == block_header.previous_block_hash);", "            assert!(last_block_header.hash[..24] == block_header.previous_block_hash[..24]);")],
     "a previous id that differs from the tip in its last bytes only", "the block is absorbed")
seed("c26-high-numbers", "C26", [("store/transaction_store.rs", "if txo != &TransactionOutput::new([0; 32], u32::MAX) {", "if txo.index != u32::MAX {")],
     "an input naming output number 4294967295 of a transaction", "it is taken for a coinbase and absorbed")
seed("c27-first", "C27", [("executor.rs", "        while let Ok(result) = self.receiver.recv() {\n            result.unwrap();\n        }", "        if let Ok(result) = self.receiver.recv() {\n            result.unwrap();\n        }")],
     "a task that ends well before another one fails", "the failure is lost")
seed("c27-kinds", "C27", [("executor.rs", "            result.unwrap();", "            if let Err(error) = result {\n                if error.is::<&str>() {\n                    std::panic::resume_unwind(error);\n                }\n            }")],
     "a task failing with a formatted message", "the failure is lost")
seed("c02-nine-bytes", "C02", [("hashing_buffer_reader.rs", "0xFF => self.read_u64_le(hasher).into(),", "0xFF => self.read_u32_le(hasher).into(),")],
     "a length written with nine bytes", "four bytes of it are taken for content and everything after it is misread")
seed("c19-hundred", "C19", [("state.rs", "        addresses\n            .into_iter()\n            .map(|address| {\n                let balance", "        addresses\n            .into_iter()\n            .take(100)\n            .map(|address| {\n                let balance")],
     "a list of more than 100 addresses", "the addresses after the hundredth are not answered")
seed("c13-pool-limit", "C13", [("last_blocks.rs", "                None => match client.getrawtransaction(&hash, logger).await {", "                None if transactions.len() >= 50 => {}\n                None => match client.getrawtransaction(&hash, logger).await {")],
     "a pool of more than 50 transactions", "new transactions after the fiftieth do not count until a later update")
seed("c12-bounded", "C12", [("last_blocks.rs", "        let mut updated = false;\n        while let Some(block) = self.next_block(client, logger).await {", "        let mut updated = false;\n        let limit = self.height() + 16;\n        while let Some(block) = self.next_block(client, logger).await {\n            if self.height() >= limit {\n                break;\n            }")],
     "a node that is more than 16 blocks ahead", "answers after the update are those of an older chain")
seed("c17-number", "C17", [("block_file_reader.rs", "            .filter(|file_name| regex.is_match(file_name))", "            .filter(|file_name| regex.is_match(file_name) && file_name[3..8].parse::<u16>().is_ok())")],
     "a block file with a number above 65535", "its blocks are not found")
seed("c20-byte", "C20", [("create_server.rs", "match confirmations.parse::<usize>() {", "match confirmations.parse::<u8>().map(usize::from) {")],
     "300 configured confirmations and a query for 256", "a valid query is refused")
seed("c27-payload", "C27", [("executor.rs", "            result.unwrap();", "            if let Err(error) = result {\n                let message = error.downcast_ref::<String>().cloned().or(error.downcast_ref::<&str>().map(|message| message.to_string()));\n                if let Some(message) = message {\n                    panic!(\"{}\", message);\n                }\n            }")],
     "a task failing with a value that is no text", "the failure is lost")
seed("c11-capped", "C11", [("state.rs", "augmentations[augmentations.len() - 1 - confirmations];", "augmentations[augmentations.len() - 1 - confirmations.min(32)];")],
     "a query with more than 32 confirmations", "the answer is that of fewer confirmations")
seed("c03-length-byte", "C03", [("address.rs", "        if script.len() == 25 && ", "        if script.len() as u8 == 25 && ")],
     "a script of 281 bytes that begins like the key-hash template", "it is attributed to an address")
seed("c02-outputs-short", "C02", [("transaction.rs", "let count_outputs = reader.read_var_int_le(&mut Some(&mut hasher));", "let count_outputs = reader.read_var_int_le(&mut Some(&mut hasher)) as u16;")],
     "a transaction with more than 65535 outputs", "the rest of the transaction and of the block is misread")
seed("c09-count-short", "C09", [("store/transaction_store_backend.rs", "        writer.write_u32(self.unspent_txo_address_map.len().try_into().unwrap());", "        writer.write_u32((self.unspent_txo_address_map.len() as u16).into());")],
     "an index of more than 65535 unspent outputs", "most of the outputs are gone after a restart")
seed("c10-same-size", "C10", [("store/store.rs", "        logger.log(\"writing buffer to file...\");", "        if let Ok(mut file) = std::fs::OpenOptions::new().write(true).open(path) {\n            let mut writer = BufferWriter::new();\n            self.to_writer(&mut writer, logger);\n            let buffer = writer.buffer();\n            if file.metadata().unwrap().len() == buffer.len() as u64 {\n                file.write_all(&buffer).unwrap();\n                file.sync_all().unwrap();\n                return;\n            }\n        }\n        logger.log(\"writing buffer to file...\");")],
     "a save that dies while the new index is exactly as long as the one it replaces", "the file under the store path is half old and half new")
seed("c13-take", "C13", [("store/transaction_store.rs", "        for txo in &transaction.inputs {", "        for txo in transaction.inputs.iter().take(20) {")],
     "an unconfirmed transaction whose 21st or later input is spent or unknown", "it is applied, and the update panics")
seed("c17-symlink", "C17", [("block_file_reader.rs", "            .filter(|file_name| regex.is_match(file_name))", "            .filter(|file_name| regex.is_match(file_name) && std::fs::symlink_metadata(format!(\"{}/{}\", self.path, file_name)).map_or(false, |m| m.is_file()))")],
     "a block file that is a symbolic link to another disk", "its blocks are not found")
seed("c18-short", "C18", [("sequential_thread_pool.rs", "self.outputs.insert(index, output);", "self.outputs.insert(index as u16 as usize, output);")],
     "more than 65536 items in one run", "the run never ends")
seed("c20-slice", "C20", [("create_server.rs", r'''Error::new(format!(r#"Invalid addresses "{}""#, &address))''', r'''Error::new(format!(r#"Invalid addresses "{}""#, &address[..address.len().min(36)]))''')],
     "a long address text with a character of several bytes around its 36th byte", "the handler panics")
seed("c20-limit", "C20", [("server.rs", "                            body.extend_from_slice(&chunk.unwrap());", "                            if body.len() < 65536 {\n                                body.extend_from_slice(&chunk.unwrap());\n                            }")],
     "a body of more than 64 kilobytes that arrives in pieces", "it is refused although it is well-formed")
seed("c22-message", "C22", [("client.rs", "if error.code == -8 {", "if error.code == -8 || error.message.contains(\"out of range\") {")],
     "another error of the node whose text speaks of a range", "it is taken for the end of the chain")
seed("c25-throttle", "C25", [("last_blocks.rs", "        let hashes = client.getrawmempool(logger).await;", "        static LAST: std::sync::Mutex<Option<std::time::SystemTime>> = std::sync::Mutex::new(None);\n        let now = std::time::SystemTime::now();\n        {\n            let mut last = LAST.lock().unwrap();\n            if last.map_or(false, |last| now < last) {\n                return;\n            }\n            *last = Some(now);\n        }\n        let hashes = client.getrawmempool(logger).await;")],
     "the system clock is set back between two updates", "the pool is no longer asked for until the clock has caught up")
