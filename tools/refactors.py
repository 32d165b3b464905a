"""Edits of /repo that change no behaviour, for trying out that the checks stay quiet (not read by any check):
(name, properties, [(file, old, new)])."""
R = [
("r-store-entry", "C01,C09,C26", [("store/transaction_store_backend.rs", """            match self.address_unspent_txos_map.get_mut(&address) {
                Some(unspent_txos) => {
                    unspent_txos.insert(txo.clone(), value);
                }
                None => {
                    let mut unspent_txos = TransactionOutputHashMap::new();
                    unspent_txos.insert(txo.clone(), value);
                    self.address_unspent_txos_map.insert(address.clone(), unspent_txos);
                }
            };
""", """            if let Some(unspent_txos) = self.address_unspent_txos_map.get_mut(&address) {
                unspent_txos.insert(txo, value);
                return;
            }
            let mut unspent_txos = TransactionOutputHashMap::with_capacity(1);
            unspent_txos.insert(txo, value);
            self.address_unspent_txos_map.insert(address, unspent_txos);
"""), ("store/transaction_store_backend.rs", """        match self.unspent_txo_address_map.remove(txo) {
            Some((_, address)) => {
                if let Some(address) = address {
                    let unspent_txos = self.address_unspent_txos_map.get_mut(&address).unwrap();
                    unspent_txos.remove(txo);
                    if unspent_txos.len() == 0 {
                        self.address_unspent_txos_map.remove(&address);
                    }
                }
                true
            }
            None => false,
        }""", """        let (_, address) = match self.unspent_txo_address_map.remove(txo) {
            Some(entry) => entry,
            None => return false,
        };
        if let Some(address) = address {
            self.forget(&address, txo);
        }
        true"""), ("store/transaction_store_backend.rs", """    pub fn to_writer(&self, writer: &mut BufferWriter, logger: &Logger) {""", """    fn forget(&mut self, address: &Address, txo: &TransactionOutput) {
        let unspent_txos = self.address_unspent_txos_map.get_mut(address).expect("address of an unspent output");
        unspent_txos.remove(txo);
        if unspent_txos.iter().next().is_none() {
            self.address_unspent_txos_map.remove(address);
        }
    }

    pub fn to_writer(&self, writer: &mut BufferWriter, logger: &Logger) {""")]),
("r-can-add", "C13,C11", [("store/transaction_store.rs", """        for txo in &transaction.inputs {
            if !self.backend.has_transaction_output(txo) {
                return false;
            }
        }
        true""", """        transaction.inputs.iter().all(|txo| self.backend.has_transaction_output(txo))""")]),
("r-op-return", "C01,C03", [("store/transaction_store.rs", "self.len() > 0 && self[0] == 0x6a", "self.first() == Some(&0x6a)"),
    ("store/transaction_store.rs", """        for (index, output) in transaction.outputs.iter().enumerate() {
            if !output.script.starts_with_OP_RETURN() {
                let index = index.try_into().unwrap();
                let address = Address::from_script(&output.script).ok();
                self.backend
                    .add_transaction_output(TransactionOutput::new(transaction.hash, index), address, output.value);
            }
        }""", """        let mut index: u32 = 0;
        for output in &transaction.outputs {
            if !output.script.starts_with_OP_RETURN() {
                let txo = TransactionOutput::new(transaction.hash, index);
                self.backend.add_transaction_output(txo, Address::from_script(&output.script).ok(), output.value);
            }
            index = index.checked_add(1).unwrap();
        }"""), ("store/transaction_store.rs", "    Address, BlockTrait", "    Address, BlockTrait") if False else ("address.rs", """        if script.len() == 25 && script[0] == 0x76 && script[1] == 0xA9 && script[2] == 0x14 && script[23] == 0x88 && script[24] == 0xAC {
            return Ok(Address::P2PKH(script[3..23].try_into().unwrap()));
        }
        if script.len() == 23 && script[0] == 0xa9 && script[1] == 0x14 && script[22] == 0x87 {
            return Ok(Address::P2SH(script[2..22].try_into().unwrap()));
        }
        Err(Error::new("Invalid address script"))""", """        match script {
            [0x76, 0xA9, 0x14, hash @ .., 0x88, 0xAC] if hash.len() == 20 => Ok(Address::P2PKH(hash.try_into().unwrap())),
            [0xa9, 0x14, hash @ .., 0x87] if hash.len() == 20 => Ok(Address::P2SH(hash.try_into().unwrap())),
            _ => Err(Error::new("Invalid address script")),
        }""")]),
("r-varint", "C02", [("hashing_buffer_reader.rs", """        match self.read_u8(hasher) {
            0xFD => self.read_u16_le(hasher).into(),
            0xFE => self.read_u32_le(hasher).into(),
            0xFF => self.read_u64_le(hasher).into(),
            byte => byte.into(),
        }""", """        let prefix = self.read_u8(hasher);
        let width = match prefix {
            0xFD => 2,
            0xFE => 4,
            0xFF => 8,
            byte => return byte.into(),
        };
        let mut value = 0u64;
        for (i, &byte) in self.read_buffer(width, hasher).iter().enumerate() {
            value |= (byte as u64) << (8 * i);
        }
        value"""), ("transaction.rs", """        for _ in 0..count_outputs {
            let value = reader.read_u64_le(&mut Some(&mut hasher));
            let script = reader.read_var_buffer_le(&mut Some(&mut hasher));
            outputs.push(Output { value, script });
        }""", """        while outputs.len() < count_outputs as usize {
            outputs.push(read_output(reader, &mut hasher));
        }"""), ("transaction.rs", "impl Transaction {\n", """fn read_output(reader: &mut HashingBufferReader, hasher: &mut Hasher) -> Output {
    let value = reader.read_u64_le(&mut Some(&mut *hasher));
    let script = reader.read_var_buffer_le(&mut Some(&mut *hasher));
    Output { value, script }
}

impl Transaction {
""")]),
("r-base58", "C05,C04", [("base58/encode.rs", """        for &value in input {
            let mut carry = value as usize;
            for value in &mut output[..index] {
                carry += (*value as usize) << 8;
                *value = (carry % 58) as u8;
                carry /= 58;
            }
            while carry > 0 {
                *output.get_mut(index).ok_or(Error::BufferTooSmall)? = (carry % 58) as u8;
                index += 1;
                carry /= 58;
            }
        }
        for _ in input.iter().take_while(|&&value| value == 0) {""", """        let zeros = input.iter().take_while(|&&value| value == 0).count();
        for &value in &input[zeros..] {
            let mut carry = value as usize;
            let mut k = 0;
            while k < index || carry > 0 {
                if k == output.len() {
                    return Err(Error::BufferTooSmall);
                }
                if k < index {
                    carry += (output[k] as usize) * 256;
                }
                let quotient = carry / 58;
                output[k] = (carry - quotient * 58) as u8;
                carry = quotient;
                k += 1;
            }
            index = k;
        }
        for _ in 0..zeros {""")]),
("r-hex", "C06,C22", [("hex.rs", """    for (i, pair) in input.chunks(2).enumerate() {
        output[i] = value(pair[0], 2 * i)? << 4 | value(pair[1], 2 * i + 1)?;
    }""", """    let mut index = 0;
    while index < input.len() {
        let high = value(input[index], index)?;
        let low = value(input[index + 1], index + 1)?;
        output[index / 2] = high * 16 + low;
        index += 2;
    }"""), ("hex.rs", """const fn value(character: u8, index: usize) -> Result<u8, Error> {
    match character {
        b'A'..=b'F' => Ok(character - b'A' + 10),
        b'a'..=b'f' => Ok(character - b'a' + 10),
        b'0'..=b'9' => Ok(character - b'0'),
        _ => Err(Error::InvalidHexCharacter {
            character: character as char,
            index,
        }),
    }
}""", """fn value(character: u8, index: usize) -> Result<u8, Error> {
    let character = character as char;
    match character.to_digit(16) {
        Some(digit) => Ok(digit as u8),
        None => Err(Error::InvalidHexCharacter { character, index }),
    }
}""")]),
("r-base64", "C07,C22", [("base_binary/encode.rs", """        for &value in input.as_ref() {
            accumulator = (accumulator << 8) | (value as usize);
            bits += 8;
            while bits >= self.bits {
                bits -= self.bits;
                *output.get_mut(index).ok_or(Error::BufferTooSmall)? = self.alphabet.encode(accumulator >> bits);
                index += 1;
                accumulator = accumulator & ((1 << bits) - 1);
            }
        }
        if bits > 0 {
            *output.get_mut(index).ok_or(Error::BufferTooSmall)? = self.alphabet.encode(accumulator << (self.bits - bits));
            index += 1;
        }
        while (index * self.bits) % 8 != 0 {
            *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0x3d;
            index += 1;
        }
        Ok(index)""", """        let mut push = |character: u8| {
            match output.get_mut(index) {
                Some(value) => *value = character,
                None => return Err(Error::BufferTooSmall),
            }
            index += 1;
            Ok(index)
        };
        let mut written = 0;
        for &value in input.as_ref() {
            accumulator = (accumulator * 256) + (value as usize);
            bits += 8;
            loop {
                if bits < self.bits {
                    break;
                }
                bits -= self.bits;
                written = push(self.alphabet.encode(accumulator >> bits))?;
                accumulator %= 1 << bits;
            }
        }
        if bits != 0 {
            written = push(self.alphabet.encode(accumulator << (self.bits - bits)))?;
        }
        while (written * self.bits) % 8 != 0 {
            written = push(b'=')?;
        }
        Ok(written)""")]),
("r-address", "C04,C20", [("address.rs", """        let mut buffer = [0u8; 25];
        let len = base58_check::decode_into(string, &mut buffer)?;
        Self::from_slice(&buffer[0..len])""", """        Self::from_slice(base58_check::decode(string)?)"""), ("address.rs", """        let (version, hash) = match self {
            Address::P2PKH(hash) => (0, hash),
            Address::P2SH(hash) => (5, hash),
        };
        let mut vec = vec![version];
        vec.extend_from_slice(hash);
        vec""", """        let mut vec = Vec::with_capacity(21);
        match self {
            Address::P2PKH(hash) => {
                vec.push(0);
                vec.extend(hash.iter());
            }
            Address::P2SH(hash) => {
                vec.push(5);
                vec.extend(hash.iter());
            }
        }
        vec""")]),
("r-intermediary", "C08,C26", [("store/transaction_store_backend.rs", """        match self.unspent_txos.remove(txo) {
            Some(_) => true,
            None => {
                self.spent_txos.push(txo.clone());
                false
            }
        }""", """        let known = self.unspent_txos.remove(txo).is_some();
        if !known {
            self.spent_txos.push(txo.clone());
        }
        known"""), ("store/store.rs", """        for block_header in &self.block_headers {
            store.add_block_header(block_header.clone());
        }
        self.transaction_store.merge(&mut store.transaction_store);""", """        self.block_headers.iter().cloned().for_each(|block_header| store.add_block_header(block_header));
        self.transaction_store.merge(&mut store.transaction_store);"""), ("store/store.rs", """        let mut store = Self::large();
        if threads > 1 {
            let batcher""", """        let mut store = Self::large();
        if threads <= 1 {
            process_blocks(&mut store, &blocks, logger);
        } else {
            let batcher"""), ("store/store.rs", """                    blocks[blocks.len() - 1].height()
                ));
            }
        } else {
            process_blocks(&mut store, &blocks, logger);
        }
        store""", """                    blocks.last().unwrap().height()
                ));
            }
        }
        store"""), ("batcher.rs", """        if self.offset < self.items.len() {
            let end_offset = std::cmp::min(self.offset + self.size, self.items.len());
            let items = self.items[self.offset..end_offset].to_vec();
            self.offset = end_offset;
            Some(items)
        } else {
            None
        }""", """        let items: Vec<T> = self.items.iter().skip(self.offset).take(self.size).cloned().collect();
        if items.is_empty() {
            return None;
        }
        self.offset += items.len();
        Some(items)""")]),
("r-pool", "C18,C08,C17", [("thread_pool.rs", """            workers.push(spawn(move || loop {
                let input = input_receiver.lock().unwrap().recv();
                match input {
                    Ok(input) => {
                        let output = process_fn(input);
                        output_sender.send(output).unwrap();
                    }
                    Err(_) => {
                        break;
                    }
                }
            }));""", """            let next = move || input_receiver.lock().unwrap().recv().ok();
            workers.push(spawn(move || {
                while let Some(input) = next() {
                    output_sender.send(process_fn(input)).unwrap();
                }
            }));"""), ("sequential_thread_pool.rs", """        loop {
            if let Some(output) = self.outputs.remove(&self.output_index) {
                self.output_index += 1;
                return Some(output);
            }
            if let Some((index, output)) = self.threadpool.next() {
                self.outputs.insert(index, output);
            } else {
                return None;
            }
        }""", """        while !self.outputs.contains_key(&self.output_index) {
            let (index, output) = self.threadpool.next()?;
            self.outputs.insert(index, output);
        }
        let output = self.outputs.remove(&self.output_index);
        self.output_index += 1;
        output""")]),
("r-pool-btree", "C18,C08", [("sequential_thread_pool.rs", "use std::collections::HashMap;", "use std::collections::BTreeMap;"), ("sequential_thread_pool.rs", "outputs: HashMap<usize, Output>", "outputs: BTreeMap<usize, Output>"), ("sequential_thread_pool.rs", "outputs: HashMap::new()", "outputs: BTreeMap::new()")]),
("r-save", "C09,C10", [("store/store.rs", """        let mut file = File::create(&temporary_path).unwrap();
        file.write_all(&writer.buffer()).unwrap();
        file.sync_all().unwrap();
        std::fs::rename(&temporary_path, path).unwrap();""", """        write_durably(&temporary_path, &writer.buffer()).unwrap();
        std::fs::rename(&temporary_path, path).unwrap();"""), ("store/store.rs", "pub type IndexedStore = ", """fn write_durably(path: &str, buffer: &[u8]) -> std::io::Result<()> {
    let mut file = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(path)?;
    for chunk in buffer.chunks(1 << 16) {
        file.write_all(chunk)?;
    }
    file.sync_all()
}

pub type IndexedStore = """), ("store/store.rs", "use std::{fs::File, io::Write};", "use std::io::Write;"), ("store/store.rs", """        let store = match std::fs::read(path) {
            Ok(buffer) => {
                let mut reader = HashingBufferReader::new(&buffer);
                Some(Self::from_reader(&mut reader, logger))
            }
            Err(_) => None,
        };""", """        let store = std::fs::read(path).ok().map(|buffer| Self::from_reader(&mut HashingBufferReader::new(&buffer), logger));""")]),
("r-tail", "C11,C12,C13", [("last_blocks.rs", """        for i in 0..count + 1 {
            if i < self.blocks.len() {
                augmented_store.add_block(&self.blocks[i]);
            } else {
                self.mempool.transactions(&mut |transaction| {
                    if augmented_store.can_add_transaction(transaction) {
                        augmented_store.add_transaction(transaction)
                    }
                });
            }
        }""", """        for block in self.blocks.iter().take(count + 1) {
            augmented_store.add_block(block);
        }
        if count == self.blocks.len() {
            self.mempool.transactions(&mut |transaction| {
                if augmented_store.can_add_transaction(transaction) {
                    augmented_store.add_transaction(transaction)
                }
            });
        }"""), ("last_blocks.rs", """        let mut augmentations = Vec::new();
        for i in 0..self.blocks.len() + 1 {
            augmentations.push(self.augmentation(store, i));
        }
        augmentations""", """        (0..=self.blocks.len()).map(|i| self.augmentation(store, i)).collect()"""), ("last_blocks.rs", """        let mut blocks = Vec::new();
        while self.blocks.len() > confirmations - 1 {
            blocks.push(self.blocks.pop_front().unwrap());
        }
        blocks""", """        let surplus = self.blocks.len().saturating_sub(confirmations - 1);
        self.blocks.drain(..surplus).collect()""")]),
("r-mempool", "C13,C12", [("last_blocks.rs", """        for hash in &hashes {
            match self.mempool.transactions.remove(hash) {
                Some(transaction) => {
                    transactions.insert(*hash, transaction);
                }
                None => match client.getrawtransaction(&hash, logger).await {
                    Some(transaction) => {
                        transactions.insert(*hash, transaction);
                    }
                    None => logger.log(format!("Could not get transaction {}", reverse_hex::encode(hash))),
                },
            }
        }""", """        for hash in hashes.iter() {
            let transaction = match self.mempool.transactions.remove(hash) {
                Some(transaction) => Some(transaction),
                None => client.getrawtransaction(hash, logger).await,
            };
            if let Some(transaction) = transaction {
                transactions.insert(*hash, transaction);
            } else {
                logger.log(format!("Could not get transaction {}", reverse_hex::encode(hash)));
            }
        }"""), ("last_blocks.rs", """        while let Some(block) = self.next_block(client, logger).await {
            updated = true;
            self.add_block(block);
        }
        updated""", """        loop {
            match self.next_block(client, logger).await {
                Some(block) => self.add_block(block),
                None => return updated,
            }
            updated = true;
        }""")]),
("r-state", "C14,C15,C12", [("state.rs", """        let mut augmentations = self.augmentations.write().await;
        match update {
            Update::LastAugmentationUpdate(augmentation) => {
                augmentations.pop();
                augmentations.push(augmentation);
                false
            }
            Update::AugmentationsUpdate(updated_augmentations, blocks) => {
                *augmentations = updated_augmentations;
                if blocks.len() > 0 {
                    let store = &mut *self.store.write().await;
                    for block in &blocks {
                        store.add_block(block);
                    }
                    true
                } else {
                    false
                }
            }
        }""", """        let mut augmentations = self.augmentations.write().await;
        let (updated_augmentations, blocks) = match update {
            Update::LastAugmentationUpdate(augmentation) => {
                match augmentations.last_mut() {
                    Some(last) => *last = augmentation,
                    None => augmentations.push(augmentation),
                }
                return false;
            }
            Update::AugmentationsUpdate(updated_augmentations, blocks) => (updated_augmentations, blocks),
        };
        *augmentations = updated_augmentations;
        if blocks.is_empty() {
            return false;
        }
        let mut store = self.store.write().await;
        blocks.iter().for_each(|block| store.add_block(block));
        true"""), ("state.rs", """            let augmentations = if blocks.len() > 0 {
                let mut store = AugmentedStore::new(&store);
                for block in &blocks {
                    store.add_block(block);
                }
                tail_blocks.augmentations(&store)
            } else {
                tail_blocks.augmentations(&store)
            };""", """            let augmentations = {
                let mut store = AugmentedStore::new(&store);
                for block in &blocks {
                    store.add_block(block);
                }
                tail_blocks.augmentations(&store)
            };""")]),
("r-state-queries", "C14,C11,C19", [("state.rs", """        addresses
            .into_iter()
            .map(|address| {
                let balance = store.balance(&address);
                (address, balance)
            })
            .collect()""", """        let mut balances = Vec::with_capacity(addresses.len());
        for address in addresses {
            let balance = store.balance(&address);
            balances.push((address, balance));
        }
        balances"""), ("state.rs", """        if confirmations == augmentations.len() {
            ReadonlyTransactionStore::new(ReadonlyAugmentedTransactionStoreBackend::new(store.backend(), None))
        } else {
            assert!(confirmations < augmentations.len());
            let augmentation = &augmentations[augmentations.len() - 1 - confirmations];
            ReadonlyTransactionStore::new(ReadonlyAugmentedTransactionStoreBackend::new(store.backend(), Some(augmentation)))
        }""", """        assert!(confirmations <= augmentations.len());
        let augmentation = augmentations.iter().rev().nth(confirmations);
        ReadonlyTransactionStore::new(ReadonlyAugmentedTransactionStoreBackend::new(store.backend(), augmentation))""")]),
("r-chain", "C16,C17,C23", [("block_file_reader.rs", """            match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                None => {
                    reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
                }
                Some(blocks) => {
                    blocks.push(block.hash());
                }
            }""", """            reverse_hashmap.entry(block.previous_block_hash()).or_insert_with(Vec::new).push(block.hash());"""), ("block_file_reader.rs", """            let mut new_heads = Vec::new();
            for head in &heads {
                if let Some(blocks) = reverse_hashmap.get(head) {
                    for block in blocks {
                        new_heads.push(*block);
                    }
                }
            }
            if new_heads.len() > 0 {
                height += 1;
                heads = new_heads;
            } else {
                break;
            }""", """            let new_heads: Vec<[u8; 32]> = heads.iter().filter_map(|head| reverse_hashmap.get(head)).flatten().copied().collect();
            if new_heads.is_empty() {
                break;
            }
            height += 1;
            heads = new_heads;"""), ("block_file_reader.rs", """            block.height = height - 1;
            current = block.previous_block_hash();
            blocks.push(block);
            height -= 1;""", """            height -= 1;
            block.height = height;
            current = block.previous_block_hash();
            blocks.push(block);""")]),
("r-scan", "C17,C16", [("block_file_reader.rs", """            let mut bytes = 0;
            while bytes < buffer.len() {
                match file.read(&mut buffer[bytes..]).unwrap() {
                    0 => break,
                    count => bytes += count,
                }
            }
            if buffer""", """            let bytes = read_up_to(&mut file, &mut buffer);
            if buffer"""), ("block_file_reader.rs", "#[derive(Debug, Clone)]\npub struct BlockFileReader {", """fn read_up_to(file: &mut File, buffer: &mut [u8]) -> usize {
    let mut bytes = 0;
    loop {
        let count = file.read(&mut buffer[bytes..]).unwrap();
        bytes += count;
        if count == 0 || bytes == buffer.len() {
            return bytes;
        }
    }
}

#[derive(Debug, Clone)]
pub struct BlockFileReader {"""), ("block_file_reader.rs", """        file_names.sort();
        file_names""", """        file_names.sort_by(|a, b| a.cmp(b));
        file_names""")]),
("r-router", "C19,C20", [("server.rs", """                let mut parameters = HashMap::new();
                if let Some(query) = request.uri().query() {
                    for part in query.split('&') {
                        let (name, value) = part.split_once('=').unwrap_or((part, ""));
                        parameters.insert(name.to_string(), value.to_string());
                    }
                }
                parameters.extend(path_parameters);""", """                let mut parameters = request.uri().query().map(parse_query).unwrap_or_default();
                for (name, value) in path_parameters {
                    parameters.insert(name, value);
                }"""), ("server.rs", "pub struct Router<S> {", """fn parse_query(query: &str) -> HashMap<String, String> {
    query
        .split('&')
        .map(|part| match part.find('=') {
            Some(index) => (part[..index].to_string(), part[index + 1..].to_string()),
            None => (part.to_string(), String::new()),
        })
        .collect()
}

pub struct Router<S> {"""), ("server.rs", """        if let Some(captures) = self.regex.captures(uri) {
            let mut parameters = HashMap::new();
            for (name, &index) in &self.parameters {
                parameters.insert(name.clone(), captures[index].to_string());
            }
            Some(parameters)
        } else {
            None
        }""", """        let captures = self.regex.captures(uri)?;
        Some(self.parameters.iter().map(|(name, &index)| (name.clone(), captures[index].to_string())).collect())""")]),
("r-answers", "C20,C21,C19", [("create_server.rs", """        Some(confirmations) => match confirmations.parse::<usize>() {
            Ok(confirmations) => {
                if confirmations <= max_confirmations {
                    Ok(confirmations)
                } else {
                    Err(Error::new(format!(
                        "Expecting confirmations parameter to be less or equal to {}",
                        max_confirmations
                    )))
                }
            }
            Err(_) => Err(Error::new(format!(r#"Invalid confirmations parameter "{}""#, confirmations))),
        },
        None => Ok(0),""", """        None => Ok(0),
        Some(text) => {
            let confirmations: usize = text
                .parse()
                .map_err(|_| Error::new(format!(r#"Invalid confirmations parameter "{}""#, text)))?;
            if confirmations > max_confirmations {
                return Err(Error::new(format!(
                    "Expecting confirmations parameter to be less or equal to {}",
                    max_confirmations
                )));
            }
            Ok(confirmations)
        }"""), ("create_server.rs", '"balance": (*balance as f64)/1e8', '"balance": format_value(*balance)'), ("create_server.rs", """    array
        .iter()
        .map(|address| match address.as_str() {
            Some(address) => parse_address(address),
            None => Err(Error::new("Expecting array of strings in JSON body")),
        })
        .collect()""", """    let mut addresses = Vec::new();
    for address in array {
        let address = address
            .as_str()
            .ok_or_else(|| Error::new("Expecting array of strings in JSON body"))?;
        addresses.push(parse_address(address)?);
    }
    Ok(addresses)""")]),
("r-client", "C22,C25", [("client.rs", """        let mut response = self.client.request(request).await.unwrap();
        let mut body = Vec::new();
        while let Some(chunk) = response.body_mut().data().await {
            body.extend_from_slice(&chunk.unwrap());
        }
        match response.status() {""", """        let response = self.client.request(request).await.unwrap();
        let status = response.status();
        let body = hyper::body::to_bytes(response.into_body()).await.unwrap();
        match status {"""), ("client.rs", """                panic!("{} {}", response.status(), str::from_utf8(&body).unwrap());""", """                panic!("{} {}", status, str::from_utf8(&body).unwrap());"""), ("client.rs", "use hyper::body::HttpBody;\n", ""), ("client.rs", """            Err(error) => {
                if error.code == -8 {
                    None
                } else {
                    Err(error).unwrap()
                }
            }""", """            Err(Error { code: -8, .. }) => None,
            Err(error) => panic!("getblockhash: {}", error),""")]),
("r-config", "C24", [("configuration.rs", """    match env::var(key) {
        Ok(value) => Ok(value),
        Err(_) => default.ok_or(format!("Missing {}", key)),
    }""", """    env::var(key).or_else(|_| default.ok_or_else(|| format!("Missing {}", key)))"""), ("configuration.rs", """    match var(key, None) {
        Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
        Err(err) => match env::var_os(key) {
            Some(_) => Err(format!("Invalid {}", key)),
            None => default.ok_or(err),
        },
    }""", """    let value = match env::var(key) {
        Ok(value) => value,
        Err(env::VarError::NotPresent) => return default.ok_or(format!("Missing {}", key)),
        Err(env::VarError::NotUnicode(_)) => return Err(format!("Invalid {}", key)),
    };
    f(&value).map_err(|_| format!("Invalid {} {}", key, value))""")]),
("r-clock", "C25", [("chronometer.rs", """        let elapsed = SystemTime::now().duration_since(self.start).unwrap_or_default().as_millis();
        format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)""", """        let elapsed = match self.start.elapsed() {
            Ok(elapsed) => elapsed,
            Err(_) => std::time::Duration::ZERO,
        };
        let seconds = elapsed.as_secs();
        format!("{:02}:{:02}.{:03}", seconds / 60, seconds % 60, elapsed.subsec_millis())""")]),
("r-executor", "C27", [("executor.rs", """        while let Ok(result) = self.receiver.recv() {
            result.unwrap();
        }""", """        self.receiver.iter().for_each(Result::unwrap);""")]),
("r-main", "C23,C27,C24", [("main.rs", """    let store = match IndexedStore::from_file(configuration.store_file_path(), &logger) {
        Some(store) => store,
        None => {
            let reader = BlockFileReader::new(configuration.block_files_path());
            let mut blocks = reader.blocks(configuration.threads(), &logger);
            blocks.truncate((blocks.len() + 1).saturating_sub(configuration.confirmations()));
            let store = IndexedStore::from_blocks(blocks, configuration.threads(), configuration.batch_size(), logger);
            store.to_file(configuration.store_file_path(), &logger);
            store
        }
    };""", """    let store = IndexedStore::from_file(configuration.store_file_path(), &logger).unwrap_or_else(|| build_store(&configuration, logger));"""), ("main.rs", "fn main() {\n", """fn build_store(configuration: &Configuration, logger: Logger) -> IndexedStore {
    let mut blocks = BlockFileReader::new(configuration.block_files_path()).blocks(configuration.threads(), &logger);
    let kept = if blocks.len() + 1 > configuration.confirmations() {
        blocks.len() + 1 - configuration.confirmations()
    } else {
        0
    };
    if kept < blocks.len() {
        blocks.drain(kept..);
    }
    let store = IndexedStore::from_blocks(blocks, configuration.threads(), configuration.batch_size(), logger);
    store.to_file(configuration.store_file_path(), &logger);
    store
}

fn main() {
""")]),
("r-notify", "C27,C15,C23", [("main.rs", """            loop {
                rx.recv().await;
                state.write(configuration.store_file_path()).await;
            }""", """            while let Some(()) = rx.recv().await {
                let path = configuration.store_file_path();
                state.write(path).await;
            }""")]),
]
