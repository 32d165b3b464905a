//! Reference model: transactions, blocks, the ledger of unspent outputs.
use app::address::Address;
use app::transaction_output::TransactionOutput;
use vrt::*;

pub type Id = [u8; 32];
pub const NULL: (Id, u32) = ([0; 32], u32::MAX);

#[derive(Clone)]
pub struct Out {
    pub value: u64,
    pub script: Vec<u8>,
}
#[derive(Clone)]
pub struct Tx {
    pub salt: u32,
    pub ins: Vec<(Id, u32)>,
    pub outs: Vec<Out>,
    pub segwit: bool,
    pub id: Id,
}
pub fn var_int(v: &mut Vec<u8>, n: usize) {
    if n < 0xfd {
        v.push(n as u8)
    } else if n < 0x10000 {
        v.push(0xfd);
        v.extend_from_slice(&(n as u16).to_le_bytes())
    } else {
        v.push(0xfe);
        v.extend_from_slice(&(n as u32).to_le_bytes())
    }
}
impl Tx {
    pub fn new(salt: u32, ins: Vec<(Id, u32)>, outs: Vec<Out>) -> Tx {
        Self::with(salt, ins, outs, false)
    }
    pub fn with(salt: u32, ins: Vec<(Id, u32)>, outs: Vec<Out>, segwit: bool) -> Tx {
        let mut t = Tx { salt, ins, outs, segwit, id: [0; 32] };
        t.id = hash2(&t.ser(false));
        t
    }
    fn ser(&self, witness: bool) -> Vec<u8> {
        let mut v = Vec::with_capacity(256);
        v.extend_from_slice(&2u32.to_le_bytes());
        if witness {
            v.push(0);
            v.push(1);
        }
        var_int(&mut v, self.ins.len());
        for (h, i) in &self.ins {
            v.extend_from_slice(h);
            v.extend_from_slice(&i.to_le_bytes());
            var_int(&mut v, 4);
            v.extend_from_slice(&self.salt.to_le_bytes());
            v.extend_from_slice(&0xffff_ffffu32.to_le_bytes());
        }
        var_int(&mut v, self.outs.len());
        for o in &self.outs {
            v.extend_from_slice(&o.value.to_le_bytes());
            var_int(&mut v, o.script.len());
            v.extend_from_slice(&o.script);
        }
        if witness {
            for _ in &self.ins {
                v.push(1);
                v.push(2);
                v.extend_from_slice(&[0x51, 0x52]);
            }
        }
        v.extend_from_slice(&0u32.to_le_bytes());
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.ser(self.segwit)
    }
}
pub fn coinbase(salt: u32, outs: Vec<Out>) -> Tx {
    Tx::new(salt, vec![NULL], outs)
}

#[derive(Clone)]
pub struct Blk {
    pub prev: Id,
    pub salt: u32,
    pub txs: Vec<Tx>,
    pub id: Id,
}
impl Blk {
    pub fn new(prev: Id, salt: u32, txs: Vec<Tx>) -> Blk {
        let mut b = Blk { prev, salt, txs, id: [0; 32] };
        b.id = hash2(&b.header());
        b
    }
    pub fn header(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(80);
        v.extend_from_slice(&1u32.to_le_bytes());
        v.extend_from_slice(&self.prev);
        v.extend_from_slice(&[7; 32]);
        v.extend_from_slice(&self.salt.to_le_bytes());
        v.extend_from_slice(&[0x1d; 8]);
        v
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = self.header();
        var_int(&mut v, self.txs.len());
        for t in &self.txs {
            v.extend_from_slice(&t.bytes());
        }
        v
    }
    /// the block as the program decodes it
    pub fn app(&self, height: usize) -> app::block::Block {
        app::block::Block::new(&self.bytes(), height)
    }
}

/// An address as a query sees it: kind 0 = key hash, 5 = script hash.
#[derive(Clone, Copy)]
pub struct Addr {
    pub kind: u8,
    pub hash: [u8; 20],
}
pub fn addr(kind: u8, tag: u8) -> Addr {
    let mut hash = [0x33; 20];
    hash[0] = tag;
    hash[7] = tag;
    hash[19] = tag ^ 0x55;
    Addr { kind, hash }
}
impl Addr {
    pub fn script(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(25);
        if self.kind == 0 {
            v.extend_from_slice(&[0x76, 0xa9, 0x14]);
            v.extend_from_slice(&self.hash);
            v.extend_from_slice(&[0x88, 0xac]);
        } else {
            v.extend_from_slice(&[0xa9, 0x14]);
            v.extend_from_slice(&self.hash);
            v.push(0x87);
        }
        v
    }
    pub fn app(&self) -> Address {
        let mut v = Vec::with_capacity(21);
        v.push(self.kind);
        v.extend_from_slice(&self.hash);
        Address::from_slice(&v).unwrap()
    }
    /// does the script pay this address (a term, no fork for symbolic scripts)
    pub fn paid_by(&self, script: &[u8]) -> bool {
        eq(&self.script(), script)
    }
}
pub fn pay(a: &Addr, value: u64) -> Out {
    Out { value, script: a.script() }
}

#[derive(Clone)]
pub struct Coin {
    pub op: (Id, u32),
    pub value: u64,
    pub script: Vec<u8>,
}
/// Reference ledger: the unspent outputs in creation order.
#[derive(Clone, Default)]
pub struct Ledger {
    pub coins: Vec<Coin>,
}
impl Ledger {
    pub fn new() -> Self {
        Ledger { coins: Vec::new() }
    }
    pub fn has(&self, op: &(Id, u32)) -> bool {
        self.coins.iter().any(|c| c.op == *op)
    }
    /// can the transaction be applied
    pub fn can(&self, t: &Tx) -> bool {
        t.ins.iter().enumerate().all(|(k, i)| self.has(i) && !t.ins[..k].contains(i))
    }
    pub fn tx(&mut self, t: &Tx) {
        for i in &t.ins {
            if *i != NULL {
                self.coins.retain(|c| c.op != *i);
            }
        }
        for (k, o) in t.outs.iter().enumerate() {
            let op = (t.id, k as u32);
            // an identical transaction replaces its own outputs
            self.coins.retain(|c| c.op != op);
            self.coins.push(Coin { op, value: o.value, script: o.script.clone() });
        }
    }
    pub fn block(&mut self, b: &Blk) {
        for t in &b.txs {
            self.tx(t);
        }
    }
    pub fn of(blocks: &[Blk]) -> Ledger {
        let mut l = Ledger::new();
        for b in blocks {
            l.block(b);
        }
        l
    }
    /// `got` is the answer to a query for `a`: exactly the coins that pay it.
    pub fn check_outputs(&self, a: &Addr, got: &[(Id, u32, u64)], m: &str) {
        let mut n = 0;
        for c in &self.coins {
            let w = a.paid_by(&c.script);
            let mut k = 0;
            for g in got {
                if g.0 == c.op.0 && g.1 == c.op.1 {
                    k += 1;
                    check(g.2 == c.value, m);
                }
            }
            check(k <= 1, m);
            check((k == 1) == w, m);
            n += k;
        }
        check(n == got.len(), m);
    }
    pub fn check_balance(&self, a: &Addr, got: u64, m: &str) {
        let mut s = 0u64;
        for c in &self.coins {
            let w = a.paid_by(&c.script) as u64;
            s = s.wrapping_add(c.value & w.wrapping_neg());
        }
        check(s == got, m);
    }
}
pub fn outpoint(t: &TransactionOutput) -> (Id, u32) {
    (t.hash, t.index)
}
/// outputs of an address in a store's backend
pub fn listed(b: &impl app::store::ReadonlyTransactionStoreBackendTrait, a: &Address) -> Vec<(Id, u32, u64)> {
    let mut v = Vec::new();
    b.iterate_transaction_outputs(a, |t, x| v.push((t.hash, t.index, x)));
    v
}

/// A permanent index equals the ledger of `blocks`: height, tip, links, owners' outputs, existence
/// of every output ever created.
pub fn check_index(store: &app::store::IndexedStore, blocks: &[Blk], owners: &[Addr], m: &str) {
    use app::store::{ReadonlyTransactionStoreBackendTrait, TransactionStoreBackendTrait};
    let l = Ledger::of(blocks);
    check(store.height() == blocks.len(), m);
    check(store.last_block_hash() == blocks.last().map(|b| b.id), m);
    check(store.block_headers().len() == blocks.len(), m);
    for (h, b) in store.block_headers().iter().zip(blocks) {
        check(h.hash == b.id && h.previous_block_hash == b.prev, m);
    }
    for a in owners {
        l.check_outputs(a, &listed(store.backend(), &a.app()), m);
        l.check_balance(a, store.backend().balance(&a.app()), m);
    }
    for b in blocks {
        for t in &b.txs {
            for (k, o) in t.outs.iter().enumerate() {
                // outputs nobody can ever spend need not be kept
                if o.script.first() != Some(&0x6a) {
                    let has = store.backend().has_transaction_output(&TransactionOutput::new(t.id, k as u32));
                    check(has == l.has(&(t.id, k as u32)), m);
                }
            }
        }
    }
}
/// A chain under construction.
#[derive(Clone)]
pub struct Chain {
    pub blocks: Vec<Blk>,
}
impl Chain {
    pub fn new() -> Chain {
        Chain { blocks: Vec::new() }
    }
    pub fn tip(&self) -> Id {
        self.blocks.last().map(|b| b.id).unwrap_or([0; 32])
    }
    pub fn push(&mut self, salt: u32, txs: Vec<Tx>) -> &Blk {
        let b = Blk::new(self.tip(), salt, txs);
        self.blocks.push(b);
        self.blocks.last().unwrap()
    }
    pub fn app(&self) -> Vec<app::block::Block> {
        self.blocks.iter().enumerate().map(|(k, b)| b.app(k)).collect()
    }
    pub fn store(&self) -> app::store::IndexedStore {
        let mut s = app::store::IndexedStore::large();
        for (k, b) in self.blocks.iter().enumerate() {
            s.add_block(&b.app(k));
        }
        s
    }
}
