//! One history of submissions, blocks and time, and what the pool must hold after each step.

use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Mutex,
};

use chainstate::BlockSource;
use common::{
    chain::{GenBlock, SignedTransaction, Transaction, block::timestamp::BlockTimestamp},
    primitives::{Id, Idable},
};
use mempool::{
    FeeRate, MempoolConfig, MempoolMaxSize, TxOptions, TxStatus, TransactionDuplicateStatus,
    tx_accumulator::{DefaultTxAccumulator, PackingStrategy, TransactionAccumulator},
    tx_origin::{LocalTxOrigin, RemoteTxOrigin, TxOrigin},
};
use p2p_types::PeerId;
use serialization::Encode;

use crate::{
    node::{Host, Node},
    sim::{SPACING, T0, World, assemble},
    spy::Spy,
    world::{Lock, R, Universe},
};

pub const EXPIRY: u64 = 336 * 3600;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Local(usize),
    /// from one of two peers
    Remote(usize, u64),
    /// a block with a list of the universe, or with everything the pool offers
    Block(usize),
    Template,
    /// take back this many blocks and put one more in their place, the first of them with a list
    Reorg(usize, usize),
    /// blocks that the pool is not told about yet
    Quiet(usize),
    QuietReorg(usize, usize),
    Tell,
    Later(u64),
    Gone(u64),
    /// memory for this many parts of a hundred of what is used now; 0 takes the limit away
    Limit(usize),
}

pub struct Stage<'a> {
    pub w: &'a World,
    pub u: &'a Universe,
    pub config: MempoolConfig,
    pub cluster: usize,
    /// whether the chainstate takes a block with these transactions on this tip
    known: Mutex<HashMap<(Id<GenBlock>, Vec<usize>), Result<(), String>>>,
}

#[derive(Clone)]
struct Step {
    id: Id<GenBlock>,
    time: u64,
    txs: Vec<usize>,
    after: BTreeSet<R>,
}

pub struct Play<'a> {
    s: &'a Stage<'a>,
    node: Node,
    chain: Vec<Step>,
    blocks_made: u64,
    /// what the pool has been told
    told: usize,
    told_chain: Vec<Step>,
    pool: Vec<usize>,
    born: BTreeMap<usize, u64>,
    from: BTreeMap<usize, Option<u64>>,
    orphans: BTreeMap<usize, (u64, u64)>,
    /// the least fee rate may be higher than configured
    raised: bool,
    limited: Option<usize>,
}

pub fn median(times: &[u64]) -> u64 {
    let mut t = times[times.len().saturating_sub(11)..].to_vec();
    t.sort_unstable();
    t[t.len() / 2]
}

type Res<T> = Result<T, String>;

impl<'a> Stage<'a> {
    pub fn new(w: &'a World, u: &'a Universe, cluster: usize) -> Self {
        let config = MempoolConfig { max_cluster_tx_count: cluster.into(), ..MempoolConfig::default() };
        Stage { w, u, config, cluster, known: Mutex::default() }
    }
    fn names(&self, l: &[usize]) -> String {
        let n: Vec<_> = l.iter().map(|i| self.u.txs[*i].name).collect();
        format!("[{}]", n.join(", "))
    }
    fn index(&self, id: &Id<Transaction>) -> Res<usize> {
        self.u.txs.iter().position(|t| t.id == *id).ok_or_else(|| format!("{id:x} was never given"))
    }
    fn indices(&self, l: &[SignedTransaction]) -> Res<Vec<usize>> {
        l.iter().map(|t| self.index(&t.transaction().get_id())).collect()
    }
    fn parents(&self, list: &[usize], t: usize) -> BTreeSet<usize> {
        let x = &self.u.txs[t];
        list.iter().copied().filter(|p| *p != t && self.u.txs[*p].gives.iter().any(|g| x.takes.contains(g) || x.reads.contains(g))).collect()
    }
    fn ancestors(&self, list: &[usize], t: usize) -> BTreeSet<usize> {
        let mut all = BTreeSet::new();
        let mut todo = vec![t];
        while let Some(x) = todo.pop() {
            for p in self.parents(list, x) {
                if all.insert(p) {
                    todo.push(p);
                }
            }
        }
        all
    }
    fn descendants(&self, list: &[usize], t: usize) -> BTreeSet<usize> {
        list.iter().copied().filter(|x| self.ancestors(list, *x).contains(&t)).collect()
    }
    /// everything connected with it
    fn cluster_of(&self, list: &[usize], t: usize) -> BTreeSet<usize> {
        let all: Vec<usize> = list.iter().copied().chain([t]).collect();
        let mut c = BTreeSet::from([t]);
        loop {
            let n = c.len();
            for x in &all {
                let p = self.parents(&all, *x);
                if c.contains(x) {
                    c.extend(p);
                } else if p.iter().any(|p| c.contains(p)) {
                    c.insert(*x);
                }
            }
            if c.len() == n {
                return c;
            }
        }
    }
    fn fee_of(&self, l: &BTreeSet<usize>) -> (u128, usize) {
        l.iter().fold((0, 0), |(f, s), i| (f + self.u.txs[*i].fee, s + self.u.txs[*i].size))
    }
    fn ancestor_score(&self, list: &[usize], t: usize) -> u128 {
        let mut all = self.ancestors(list, t);
        all.insert(t);
        let (f, s) = self.fee_of(&all);
        (f * 1000 / s as u128).min(self.u.txs[t].rate())
    }
    fn descendant_score(&self, list: &[usize], t: usize) -> u128 {
        let mut all = self.descendants(list, t);
        all.insert(t);
        let (f, s) = self.fee_of(&all);
        (f * 1000 / s as u128).max(self.u.txs[t].rate())
    }
}

impl<'a> Play<'a> {
    pub fn new(s: &'a Stage<'a>, host: &Host) -> Res<Self> {
        let now = T0 + 100 * SPACING;
        let node = Node::new(host, s.w, s.config.clone(), now)?;
        let coins = (0..s.w.genesis_coins as u16).map(|i| (0, 1000 + i, 0)).collect();
        let start = Step { id: s.w.genesis_id(), time: T0, txs: vec![], after: coins };
        let chain = vec![start];
        Ok(Play {
            s,
            node,
            told_chain: chain.clone(),
            chain,
            blocks_made: 0,
            told: 0,
            pool: vec![],
            born: BTreeMap::new(),
            from: BTreeMap::new(),
            orphans: BTreeMap::new(),
            raised: false,
            limited: None,
        })
    }
    fn tip(&self) -> &Step {
        self.chain.last().unwrap()
    }
    fn in_sync(&self) -> bool {
        self.told_chain.last().unwrap().id == self.tip().id
    }
    fn now(&self) -> u64 {
        self.node.clock.now()
    }
    /// whether a pool takes it now
    fn open_for_pool(&self, t: usize) -> bool {
        match self.s.u.txs[t].lock {
            None => true,
            Some(Lock::Height(h)) => self.chain.len() as u64 - 1 + 5 >= h,
            Some(Lock::Time(t)) => self.now() + 300 >= t,
        }
    }
    fn open_for_block(&self, t: usize) -> bool {
        match self.s.u.txs[t].lock {
            None => true,
            Some(Lock::Height(h)) => self.chain.len() as u64 >= h,
            Some(Lock::Time(t)) => median(&self.chain.iter().map(|s| s.time).collect::<Vec<_>>()) >= t,
        }
    }
    fn after(&self, list: &[usize]) -> Res<BTreeSet<R>> {
        let mut s = self.tip().after.clone();
        for (i, t) in list.iter().enumerate() {
            if !self.s.u.txs[*t].apply(&mut s) {
                return Err(format!("{} needs what is not there in {}", self.s.u.txs[*t].name, self.s.names(&list[..=i])));
            }
        }
        Ok(s)
    }
    fn expired(&self, t: usize) -> bool {
        self.now().saturating_sub(self.born[&t]) > EXPIRY
    }
    /// put it into the list as the pool does; whether it is in
    fn admit(&self, list: &mut Vec<usize>, t: usize) -> Res<bool> {
        let x = &self.s.u.txs[t];
        if list.contains(&t) {
            return Ok(true);
        }
        if !x.fits(&self.after(list)?) || !self.open_for_pool(t) || !x.pays() || self.s.cluster_of(list, t).len() > self.s.cluster {
            return Ok(false);
        }
        list.push(t);
        for old in list.clone() {
            if list.contains(&old) && self.expired(old) {
                let d = self.s.descendants(list, old);
                list.retain(|x| *x != old && !d.contains(x));
            }
        }
        Ok(list.contains(&t))
    }
    fn observed(&self) -> Res<Vec<usize>> {
        self.s.indices(&self.node.pool.get_all_in_insertion_order())
    }
    fn is_orphan(&self, t: usize) -> bool {
        self.node.pool.contains_orphan_transaction(&self.s.u.txs[t].id)
    }

    fn submit(&mut self, t: usize, peer: Option<u64>) -> Res<()> {
        let x = &self.s.u.txs[t];
        let sync = self.in_sync();
        let predicted = sync && !self.raised && self.limited.is_none();
        let before = self.pool.clone();
        let had = before.contains(&t);
        let was_orphan = self.is_orphan(t);
        if !had {
            self.born.insert(t, self.now());
        }
        let status = match peer {
            None => {
                let o = LocalTxOrigin::Mempool;
                self.node.pool.add_transaction_local(x.tx.clone(), o, TxOptions::default_for(TxOrigin::Local(o))).map(|s| match s {
                    TransactionDuplicateStatus::New => TxStatus::InMempool,
                    TransactionDuplicateStatus::Duplicate => TxStatus::InMempoolDuplicate,
                })
            }
            Some(p) => {
                let o = RemoteTxOrigin::new(PeerId::from_u64(p));
                self.node.pool.add_transaction_remote(x.tx.clone(), o, TxOptions::default_for(TxOrigin::Remote(o)))
            }
        };
        let mut want = before.clone();
        let got = self.observed()?;
        if had {
            if !matches!(status, Ok(TxStatus::InMempoolDuplicate)) {
                return Err(format!("{} was given again: {status:?}", x.name));
            }
        } else {
            let fine = if predicted { self.admit(&mut want, t)? } else { matches!(status, Ok(TxStatus::InMempool)) };
            if fine != matches!(status, Ok(TxStatus::InMempool)) {
                return Err(format!("{} into {}: {status:?}, should be {}", x.name, self.s.names(&before), if fine { "taken" } else { "refused" }));
            }
            if fine {
                self.from.insert(t, peer);
            } else if predicted && want.len() == before.len() {
                // why not
                let here = self.after(&before)?;
                let missing: Vec<R> = x.takes.iter().filter(|r| !here.contains(r)).copied().collect();
                // (outputs of block rewards are not looked at when conflicts are looked for)
                let conflict = before.iter().any(|p| self.s.u.txs[*p].takes.iter().any(|r| x.takes.contains(r) && r.1 < 1000));
                let orphan = matches!(status, Ok(TxStatus::InOrphanPool | TxStatus::InOrphanPoolDuplicate));
                if orphan && (peer.is_none() || conflict || missing.is_empty() && x.reads.iter().all(|r| here.contains(r))) {
                    return Err(format!("{} beside {} became an orphan", x.name, self.s.names(&before)));
                }
                // (one that is too old is thrown out when it is given again)
                let stale = self.orphans.get(&t).is_some_and(|o| self.now() > o.1 + 50);
                if !orphan && !stale && peer.is_some() && x.lock.is_none() && !conflict && missing.iter().any(|r| r.0 == 0) {
                    return Err(format!("{} beside {} with a parent missing: {status:?}", x.name, self.s.names(&before)));
                }
                if orphan && !self.is_orphan(t) {
                    return Err(format!("{} is said to be an orphan and is not", x.name));
                }
                if !orphan && !was_orphan && self.is_orphan(t) {
                    return Err(format!("{} was refused and is an orphan", x.name));
                }
            }
            let _ = sync;
        }
        if predicted && got != want {
            return Err(format!("giving {} to {}: now {}, should be {}", x.name, self.s.names(&before), self.s.names(&got), self.s.names(&want)));
        }
        self.note_orphans(Some((t, peer)));
        self.settle(&before, got)
    }

    /// remember who became an orphan in this step
    fn note_orphans(&mut self, given: Option<(usize, Option<u64>)>) {
        for t in 0..self.s.u.txs.len() {
            if !self.is_orphan(t) {
                self.orphans.remove(&t);
            } else if !self.orphans.contains_key(&t) {
                let peer = match given {
                    Some((g, p)) if g == t => p,
                    _ => self.from.get(&t).copied().flatten(),
                };
                self.orphans.insert(t, (peer.unwrap_or(u64::MAX), self.born[&t]));
            }
        }
    }

    /// let the pool do its work and see that only orphans come in, and all that can
    fn settle(&mut self, before: &[usize], got: Vec<usize>) -> Res<()> {
        let were: BTreeSet<usize> = self.orphans.keys().copied().collect();
        self.node.drain();
        let end = self.observed()?;
        let free = self.raised || self.limited.is_some() || !self.in_sync();
        if !free && !end.starts_with(&got) && !self.pool_may_expire(&got) {
            return Err(format!("working on orphans changed {} to {}", self.s.names(&got), self.s.names(&end)));
        }
        for t in &end {
            if !got.contains(t) {
                if !were.contains(t) {
                    return Err(format!("{} came from nowhere", self.s.u.txs[*t].name));
                }
                self.from.insert(*t, self.orphans.get(t).map(|o| o.0));
                self.born.insert(*t, self.orphans[t].1);
            }
        }
        if !free {
            let state = self.after(&end)?;
            let new: Vec<usize> = end.iter().copied().filter(|t| !before.contains(t)).collect();
            for t in were {
                let mut l = end.clone();
                if self.is_orphan(t) && !end.contains(&t) && self.s.u.txs[t].fits(&state) && !self.s.parents(&new, t).is_empty() {
                    // (what it needs may be in a block by now and with the orphans all the same: it waits until that is forgotten)
                    let all: Vec<usize> = (0..self.s.u.txs.len()).collect();
                    if self.s.parents(&all, t).iter().any(|p| self.is_orphan(*p)) {
                        continue;
                    }
                    let born = self.born.insert(t, self.orphans[&t].1);
                    if self.admit(&mut l, t)? {
                        return Err(format!("{} is still an orphan beside {}", self.s.u.txs[t].name, self.s.names(&end)));
                    }
                    born.map(|b| self.born.insert(t, b));
                }
            }
        }
        self.pool = end;
        self.note_orphans(None);
        Ok(())
    }
    fn pool_may_expire(&self, l: &[usize]) -> bool {
        l.iter().any(|t| self.expired(*t))
    }

    /// extend the chain by a block with what fits of a list
    fn block(&mut self, list: &[usize]) -> Res<bool> {
        let mut after = self.tip().after.clone();
        let txs: Vec<usize> = list.iter().copied().filter(|t| self.open_for_block(*t) && self.s.u.txs[*t].apply(&mut after)).collect();
        self.blocks_made += 1;
        let time = self.tip().time.max(T0 + (self.chain.len() as u64 - 1) * SPACING) + SPACING + self.blocks_made;
        let b = assemble(self.tip().id, time, vec![], txs.iter().map(|t| self.s.u.txs[*t].tx.clone()).collect(), false);
        let id = b.get_id().into();
        match self.node.mine(b) {
            Ok(_) => {}
            Err(e) if self.s.u.tracked => return Err(format!("the chainstate refuses {}: {e}", self.s.names(&txs))),
            Err(_) => return Ok(false),
        }
        self.chain.push(Step { id, time, txs, after });
        Ok(true)
    }
    fn reorg(&mut self, depth: usize, list: &[usize]) -> Res<bool> {
        if self.chain.len() <= depth {
            return Ok(false);
        }
        let old = self.chain.clone();
        self.chain.truncate(old.len() - depth);
        for i in 0..=depth {
            if !self.block(if i == 0 { list } else { &[] })? {
                self.chain = old;
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// tell the pool about the tip
    fn tell(&mut self) -> Res<()> {
        let before = self.pool.clone();
        let fork = self.told_chain.iter().zip(&self.chain).take_while(|(a, b)| a.id == b.id).count();
        let again: BTreeSet<usize> = self.chain[fork..].iter().flat_map(|s| s.txs.iter().copied()).collect();
        let back: Vec<usize> = self.told_chain[fork..].iter().flat_map(|s| s.txs.iter().copied()).filter(|t| !again.contains(t)).collect();
        let (id, h) = (self.tip().id, self.chain.len() as u64 - 1);
        let same = self.in_sync();
        for t in &back {
            if !before.contains(t) {
                self.born.insert(*t, self.now());
                self.from.insert(*t, None);
            }
        }
        self.told_chain = self.chain.clone();
        self.node.notify(id, h);
        self.told = self.chain.len();
        let _ = same;
        let got = self.observed()?;
        if !self.raised && self.limited.is_none() {
            let mut want = vec![];
            for t in back.iter().chain(&before) {
                // one that is in both lists is from the past block, and new
                if back.contains(t) && !want.contains(t) {
                    self.born.insert(*t, self.now());
                    self.from.insert(*t, None);
                }
                self.admit(&mut want, *t)?;
            }
            if got != want {
                return Err(format!(
                    "a new tip took back {} and brought {}: {} became {}, should be {}",
                    self.s.names(&back),
                    self.s.names(&again.into_iter().collect::<Vec<_>>()),
                    self.s.names(&before),
                    self.s.names(&got),
                    self.s.names(&want)
                ));
            }
        }
        if self.node.pool.best_block_id() != id {
            return Err("the pool knows another tip than it was told".into());
        }
        self.note_orphans(None);
        // whoever came in by the reorg is new to the orphans
        self.settle(&[], got)
    }

    pub fn step(&mut self, op: Op) -> Res<bool> {
        match op {
            Op::Local(t) => self.submit(t, None)?,
            Op::Remote(t, p) => self.submit(t, Some(p))?,
            Op::Block(l) => {
                if !self.block(&self.s.u.blocks[l])? {
                    return Ok(false);
                }
                self.tell()?;
            }
            Op::Template => {
                let l = self.template(&[], PackingStrategy::FillSpaceFromMempool, 1_000_000, None)?;
                if l.is_empty() {
                    return Ok(false);
                }
                if !self.block(&l)? || self.tip().txs != l {
                    return Err(format!("the template {} is not a block", self.s.names(&l)));
                }
                self.tell()?;
            }
            Op::Reorg(d, l) => {
                if !self.reorg(d, &self.s.u.blocks[l])? {
                    return Ok(false);
                }
                self.tell()?;
            }
            Op::Quiet(l) => return self.block(&self.s.u.blocks[l]),
            Op::QuietReorg(d, l) => return self.reorg(d, &self.s.u.blocks[l]),
            Op::Tell => {
                if self.in_sync() {
                    return Ok(false);
                }
                self.tell()?;
            }
            Op::Later(s) => self.node.clock.add(s),
            Op::Gone(p) => {
                self.node.pool.notify_peer_disconnected(PeerId::from_u64(p));
                for (t, o) in &self.orphans {
                    if o.0 == p && self.is_orphan(*t) {
                        return Err(format!("{} of a peer that left is still an orphan", self.s.u.txs[*t].name));
                    }
                    if o.0 != p && !self.is_orphan(*t) {
                        return Err(format!("{} left with a peer that did not send it", self.s.u.txs[*t].name));
                    }
                }
                self.note_orphans(None);
            }
            Op::Limit(0) => {
                self.node.pool.set_size_limit(MempoolMaxSize::default()).map_err(|e| e.to_string())?;
                // the fee asked for falls back only if the limit grew
                self.raised &= self.limited.is_none();
                self.limited = None;
            }
            Op::Limit(part) => {
                if self.pool.is_empty() {
                    return Ok(false);
                }
                let max = self.node.pool.memory_usage() * part / 100;
                let before = self.pool.clone();
                self.node.pool.set_size_limit(MempoolMaxSize::from_bytes(max)).map_err(|e| e.to_string())?;
                self.limited = Some(max);
                let got = self.observed()?;
                self.raised |= got != before;
                // the least valuable go first, with all that need them
                let mut l = before.clone();
                while l != got {
                    if l.is_empty() {
                        return Err(format!("a limit left {} of {}", self.s.names(&got), self.s.names(&before)));
                    }
                    let t = *l.iter().min_by_key(|t| (self.s.descendant_score(&l, **t), self.s.u.txs[**t].id)).unwrap();
                    let d = self.s.descendants(&l, t);
                    l.retain(|x| *x != t && !d.contains(x));
                }
                self.pool = got;
            }
        }
        Ok(true)
    }

    /// what holds after every step
    pub fn check(&self) -> Res<()> {
        let list = self.observed()?;
        if list != self.pool {
            return Err("the pool changed by itself".into());
        }
        if let Some(max) = self.limited {
            if self.node.pool.memory_usage() > max && !list.is_empty() {
                return Err(format!("{} bytes used, {max} allowed", self.node.pool.memory_usage()));
            }
        }
        for (i, t) in self.s.u.txs.iter().enumerate() {
            let (a, b) = (self.node.pool.contains_transaction(&t.id), self.node.pool.transaction(&t.id));
            if a != list.contains(&i) || b.as_ref() != a.then_some(&t.tx) {
                return Err(format!("{}: listed {}, contained {a}, given out {}", t.name, list.contains(&i), b.is_some()));
            }
        }
        let mut taken = BTreeSet::new();
        for t in &list {
            for r in &self.s.u.txs[*t].takes {
                if !taken.insert(*r) {
                    return Err(format!("two in {} take the same", self.s.names(&list)));
                }
            }
            let c = self.s.cluster_of(&list, *t).len();
            if c > self.s.cluster {
                return Err(format!("{c} connected in {}", self.s.names(&list)));
            }
        }
        if !self.in_sync() {
            return Ok(());
        }
        if self.s.u.tracked {
            self.after(&list)?;
        }
        self.templates(&list)?;
        if self.s.u.tracked {
            self.scores(&list)?;
        }
        Ok(())
    }

    fn template(&self, ids: &[usize], how: PackingStrategy, size: usize, first: Option<usize>) -> Res<Vec<usize>> {
        let now = BlockTimestamp::from_int_seconds(median(&self.chain.iter().map(|s| s.time).collect::<Vec<_>>()));
        let mut acc = DefaultTxAccumulator::new(size, self.tip().id, now);
        if let Some(t) = first {
            let x = &self.s.u.txs[t];
            acc.add_tx(x.tx.clone(), common::primitives::Amount::from_atoms(x.fee).into()).map_err(|e| e.to_string())?;
        }
        let ids = ids.iter().map(|i| self.s.u.txs[*i].id).collect();
        let got = self.node.pool.collect_txs(Box::new(acc), ids, how).map_err(|e| format!("no template: {e}"))?;
        let got = got.ok_or("no template")?;
        let list = self.s.indices(got.transactions())?;
        let bytes = got.transactions().to_vec().encoded_size();
        if bytes > size {
            return Err(format!("a template of {bytes} bytes, {size} allowed"));
        }
        let fees: u128 = list.iter().map(|t| self.s.u.txs[*t].fee).sum();
        if self.s.u.tracked && got.total_fees().into_atoms() != fees {
            return Err(format!("the template {} says {:?} of fees and has {fees}", self.s.names(&list), got.total_fees()));
        }
        let key = (self.tip().id, list.clone());
        let known = self.s.known.lock().unwrap().get(&key).cloned();
        let r = match known {
            Some(r) => r,
            None => {
                let mut c = self.s.w.open(&Spy::of(&self.node.spy.image()))?;
                let b = assemble(self.tip().id, self.tip().time + SPACING, vec![], got.transactions().to_vec(), false);
                let r = c.process_block(b, BlockSource::Local).map(|_| ()).map_err(|e| e.to_string());
                self.s.known.lock().unwrap().insert(key, r.clone());
                r
            }
        };
        r.map_err(|e| format!("the chainstate refuses the template {} of {}: {e}", self.s.names(&list), self.s.names(&self.pool)))?;
        Ok(list)
    }

    fn templates(&self, list: &[usize]) -> Res<()> {
        use PackingStrategy::*;
        let all = self.template(&[], FillSpaceFromMempool, 1_000_000, None)?;
        let mut here = self.tip().after.clone();
        let fit: Vec<usize> = list.iter().copied().filter(|t| self.open_for_block(*t) && self.s.u.txs[*t].apply(&mut here)).collect();
        let sorted = |l: &[usize]| l.iter().copied().collect::<BTreeSet<_>>();
        if self.s.u.full_template && sorted(&all) != sorted(&fit) {
            return Err(format!("the template has {} of {}", self.s.names(&all), self.s.names(&fit)));
        }
        let sizes: Vec<usize> = fit.iter().map(|t| self.s.u.txs[*t].size).collect();
        if let (Some(a), Some(b)) = (sizes.iter().min(), sizes.iter().max()) {
            for s in [a - 1, a + 1, b + 1, a + b + 1] {
                let l = self.template(&[], FillSpaceFromMempool, s, None)?;
                if l.is_empty() && self.s.u.full_template && s > *b && self.s.parents(list, fit[0]).is_empty() {
                    return Err(format!("nothing of {} in {s} bytes", self.s.names(list)));
                }
            }
        }
        if !self.template(&[], LeaveEmptySpace, 1_000_000, None)?.is_empty() {
            return Err("a template with something when nothing was wanted".into());
        }
        for t in list {
            let l = self.template(&[*t], LeaveEmptySpace, 1_000_000, None)?;
            let mut want = self.s.ancestors(list, *t);
            want.insert(*t);
            if self.s.u.full_template {
                want.retain(|x| fit.contains(x));
                if sorted(&l) != want {
                    return Err(format!("{} wanted: {}", self.s.u.txs[*t].name, self.s.names(&l)));
                }
            }
        }
        if let Some(t) = fit.first().filter(|t| self.s.parents(list, **t).is_empty()) {
            let l = self.template(&[], FillSpaceFromMempool, 1_000_000, Some(*t))?;
            if self.s.u.full_template && (l.len() != fit.len() || sorted(&l) != sorted(&fit)) {
                return Err(format!("with {} given: {}", self.s.u.txs[*t].name, self.s.names(&l)));
            }
        }
        Ok(())
    }

    fn scores(&self, list: &[usize]) -> Res<()> {
        for t in list {
            let got = self.node.pool.get_tx_score(&self.s.u.txs[*t].id).map_err(|e| e.to_string())?;
            let got: FeeRate = got.ok_or("no score")?.into();
            let want = self.s.ancestor_score(list, *t);
            if got.atoms_per_kb() != want {
                return Err(format!("{} in {} has score {}, should have {want}", self.s.u.txs[*t].name, self.s.names(list), got.atoms_per_kb()));
            }
        }
        // any selection, best first, none before what it needs
        for mask in 0..1u32 << list.len().min(4) {
            let chosen: Vec<usize> = list.iter().rev().enumerate().filter(|(i, _)| *i >= 4 || mask >> i & 1 == 1).map(|(_, t)| *t).collect();
            let mut left: BTreeSet<usize> = chosen.iter().copied().collect();
            let mut want = vec![];
            while !left.is_empty() {
                let t = *left
                    .iter()
                    .filter(|t| self.s.ancestors(list, **t).intersection(&left).next().is_none())
                    .max_by_key(|t| (self.s.ancestor_score(list, **t), self.s.u.txs[**t].id))
                    .unwrap();
                left.remove(&t);
                want.push(t);
            }
            let ids = chosen.iter().map(|t| self.s.u.txs[*t].id).collect();
            for n in [chosen.len() + 1, 1, 2] {
                let got = self.node.pool.get_best_tx_ids_by_score_and_ancestry(&ids, n).map_err(|e| e.to_string())?;
                let got = got.iter().map(|i| self.s.index(i)).collect::<Res<Vec<_>>>()?;
                if got != want[..n.min(want.len())] {
                    return Err(format!("the best {n} of {}: {}, should be {}", self.s.names(&chosen), self.s.names(&got), self.s.names(&want)));
                }
            }
        }
        Ok(())
    }
    pub fn sizes(&self) -> (usize, usize) {
        (self.pool.len(), self.orphans.len())
    }
}
