//! L01/L02: every tree of a few blocks, delivered in every order, on top of every stage of the ledger.

use std::{
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex},
};

use chainstate::BlockSource;
use common::{
    chain::{Block, DelegationId, GenBlock, PoolId},
    primitives::{Id, Idable, amount::SignedAmount},
};
use mc_kit::{Ctx, PartCtx, guard};
use pos_accounting::{DelegationData, PoolData};
use serialization::{DecodeAll, Encode};

use crate::{
    sim::{Branch, Kind, World},
    spy::{Image, Spy, diff},
};

pub type Step = (Kind, u8);
pub type Path = Vec<Step>;

/// A block, the branch that ends with it and what the database holds when only this branch was ever seen.
pub struct Node {
    pub path: Path,
    pub block: Option<Block>,
    pub branch: Branch,
    /// absent when the branch is not a valid one
    pub image: Option<Image>,
}
impl Node {
    pub fn id(&self) -> Id<GenBlock> {
        self.branch.tip
    }
    pub fn height(&self) -> u64 {
        self.branch.height
    }
}

pub struct Lab {
    pub w: World,
    nodes: Mutex<HashMap<Path, Option<Arc<Node>>>>,
    pub root: Arc<Node>,
}

/// The maps of the database that may hold more than the main chain has: blocks and their indices.
pub const VALUES: usize = 0;
pub const BLOCKS: usize = 1;
pub const INDEX: usize = 2;

/// The changes of the staking accounts in an epoch. A change back and forth leaves an entry that changes nothing, which
/// is as good as none.
pub const DELTA: usize = 18;
pub const DELTA_UNDO: usize = 19;

type Data<K, T> = BTreeMap<K, (Option<T>, Option<T>)>;
type Sums<K> = BTreeMap<K, SignedAmount>;
type Delta = (Data<PoolId, PoolData>, Sums<PoolId>, Sums<(PoolId, DelegationId)>, Sums<DelegationId>, Data<DelegationId, DelegationData>);
type Undo = (Data<PoolId, PoolData>, Data<DelegationId, DelegationData>, Sums<PoolId>, Sums<(PoolId, DelegationId)>, Sums<DelegationId>);

fn meaningful(image: &Image, map: usize) -> BTreeMap<Vec<u8>, Vec<u8>> {
    fn data<K: Ord, T: PartialEq>(d: &mut Data<K, T>) -> bool {
        d.retain(|_, (old, new)| old != new);
        d.is_empty()
    }
    fn sums<K: Ord>(d: &mut Sums<K>) -> bool {
        d.retain(|_, a| *a != SignedAmount::ZERO);
        d.is_empty()
    }
    let mut out = BTreeMap::new();
    for (k, v) in image[map].iter() {
        let v = if map == DELTA {
            match Delta::decode_all(&mut &v[..]) {
                Ok(mut d) => {
                    let none = [data(&mut d.0), sums(&mut d.1), sums(&mut d.2), sums(&mut d.3), data(&mut d.4)];
                    if none.iter().all(|x| *x) {
                        continue;
                    }
                    d.encode()
                }
                Err(_) => v.clone(),
            }
        } else {
            match Undo::decode_all(&mut &v[..]) {
                Ok(mut d) => {
                    let none = [data(&mut d.0), data(&mut d.1), sums(&mut d.2), sums(&mut d.3), sums(&mut d.4)];
                    if none.iter().all(|x| *x) {
                        continue;
                    }
                    d.encode()
                }
                Err(_) => v.clone(),
            }
        };
        out.insert(k.clone(), v);
    }
    out
}

impl Lab {
    pub fn new(w: World) -> Self {
        let root = Arc::new(Node { path: vec![], block: None, branch: w.branch(), image: Some(w.start.clone()) });
        Lab { w, nodes: Mutex::new(HashMap::new()), root }
    }

    /// The child of this kind, with its branch replayed from the start alone; an error when the replay goes wrong.
    pub fn child(&self, p: &Arc<Node>, kind: Kind, salt: u8) -> Result<Option<Arc<Node>>, String> {
        let mut path = p.path.clone();
        path.push((kind, salt));
        if let Some(n) = self.nodes.lock().unwrap().get(&path) {
            return Ok(n.clone());
        }
        let made = self.w.make(&p.branch, kind, u64::from(salt));
        let node = match made {
            None => None,
            Some((block, branch)) => {
                let image = match &p.image {
                    Some(i) if kind.good() => {
                        let spy = Spy::of(i);
                        let mut c = self.w.open(&spy)?;
                        guard(|| c.process_block(block.clone(), BlockSource::Local))
                            .and_then(|r| r.map_err(|e| e.to_string()))
                            .and_then(|r| r.map(|_| ()).ok_or("did not become the tip".into()))
                            .map_err(|e| format!("{path:?} in a row: {e}"))?;
                        Some(spy.image())
                    }
                    _ => None,
                };
                Some(Arc::new(Node { path: path.clone(), block: Some(block), branch, image }))
            }
        };
        self.nodes.lock().unwrap().insert(path, node.clone());
        Ok(node)
    }

    pub fn chain(&self, kinds: &[Kind]) -> Result<Option<Arc<Node>>, String> {
        let mut n = self.root.clone();
        for k in kinds {
            match self.child(&n, *k, 90)? {
                Some(c) => n = c,
                None => return Ok(None),
            }
        }
        Ok(Some(n))
    }

    /// Does the database hold exactly what seeing only the main chain leaves there?
    pub fn same_as_replay(&self, got: &Image, tip: &Node, values: bool) -> Vec<String> {
        let want = tip.image.as_ref().expect("a valid branch");
        let mut skip = vec![BLOCKS, INDEX, DELTA, DELTA_UNDO];
        if !values {
            skip.push(VALUES); // the recorded height of the deepest reorganisation may differ
        }
        let mut d = diff(got, want, &skip);
        for m in [DELTA, DELTA_UNDO] {
            if meaningful(got, m) != meaningful(want, m) {
                d.push(format!("map {m}: what the epochs changed differs"));
            }
        }
        for m in [BLOCKS, INDEX] {
            let wrong = want[m].iter().filter(|(k, v)| got[m].get(*k) != Some(*v)).count();
            if wrong > 0 {
                d.push(format!("map {m}: {wrong} entries of the main chain differ"));
            }
        }
        d
    }
}

#[derive(Clone)]
struct Seen {
    node: Arc<Node>,
    parent: usize,
    kind: Option<Kind>,
    /// found or declared bad itself
    flag: bool,
    /// refused on delivery: not kept
    absent: bool,
    /// whether it counts as bad on record is left open
    unsure: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Deliver(usize, Kind),
    Invalidate(usize),
    Reset(usize),
}

#[derive(Clone)]
pub struct Walk {
    seen: Vec<Seen>,
    tip: usize,
    image: Image,
    names: Vec<String>,
    others: usize,
    /// where it began, and what was done since
    begin: Image,
    ops: Vec<(Op, Option<Block>)>,
    /// how deep a reorganisation may go, and the height below which none goes any more
    depth: u64,
    floor: u64,
}

/// What an operation must lead to.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Tip,
    Aside,
    Refused,
    /// kept aside or refused
    Either,
    Done,
}

impl Walk {
    pub fn start(nodes: &[Arc<Node>], depth: u64) -> Self {
        let seen = nodes
            .iter()
            .enumerate()
            .map(|(i, n)| Seen { node: n.clone(), parent: i.wrapping_sub(1), kind: n.path.last().map(|p| p.0), flag: false, absent: false, unsure: false })
            .collect();
        let tip = nodes.len() - 1;
        let image = nodes[tip].image.clone().expect("a valid base");
        let floor = nodes[tip].height().saturating_sub(depth);
        Walk { seen, tip, image: image.clone(), names: vec![], others: 0, begin: image, ops: vec![], depth, floor }
    }
    pub fn image(&self) -> &Image {
        &self.image
    }
    pub fn tip(&self) -> &Arc<Node> {
        &self.seen[self.tip].node
    }
    pub fn name(&self) -> String {
        format!("after {:?}: {}", self.seen[0].node.path.iter().map(|s| s.0).collect::<Vec<_>>(), self.names.join(", "))
    }
    /// What the last step was.
    pub fn last(&self) -> &(Op, Option<Block>) {
        self.ops.last().expect("a step")
    }
    pub fn node(&self, i: usize) -> &Arc<Node> {
        &self.seen[i].node
    }
    /// The block with this id, if it is one of the walk.
    pub fn find(&self, id: &Id<GenBlock>) -> Option<&Arc<Node>> {
        self.seen.iter().map(|s| &s.node).find(|n| n.id() == *id)
    }
    /// Could this block be the tip, things being as they are?
    pub fn sound(&self, id: &Id<GenBlock>) -> bool {
        (0..self.seen.len()).any(|i| self.seen[i].node.id() == *id && self.culprit(i).is_none() && !self.line(i).iter().any(|j| self.seen[*j].kind.is_some_and(Kind::bad_check)))
    }

    /// Does the line of this block leave the main chain too far down?
    fn too_deep(&self, i: usize) -> bool {
        let main = self.line(self.tip);
        let common = self.line(i).into_iter().find(|j| main.contains(j));
        common.map_or(0, |j| self.height(j)) < self.floor
    }
    fn settle(&mut self) {
        self.floor = self.floor.max(self.height(self.tip).saturating_sub(self.depth));
    }

    fn line(&self, i: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut i = i;
        while i != usize::MAX {
            v.push(i);
            i = self.seen[i].parent;
        }
        v
    }
    fn below(&self, i: usize) -> Vec<usize> {
        (0..self.seen.len()).filter(|j| self.line(*j).contains(&i)).collect()
    }
    fn bad(&self, i: usize) -> bool {
        self.line(i).iter().any(|j| self.seen[*j].flag || self.seen[*j].absent)
    }
    /// the block nearest to the root that cannot be connected
    fn culprit(&self, i: usize) -> Option<usize> {
        self.line(i).into_iter().filter(|j| self.seen[*j].kind.is_some_and(Kind::bad_connect)).last()
    }
    fn height(&self, i: usize) -> u64 {
        self.seen[i].node.height()
    }

    fn deliver(&mut self, parent: usize, node: &Arc<Node>, kind: Kind) -> Want {
        let me = self.seen.len();
        let parent_bad = self.bad(parent);
        let parent_unsure = self.seen[parent].unsure && !self.line(parent).iter().any(|j| self.seen[*j].absent);
        self.seen.push(Seen { node: node.clone(), parent, kind: Some(kind), flag: kind.bad_check(), absent: false, unsure: false });
        if kind.bad_check() || (parent_bad && !parent_unsure) || self.too_deep(parent) {
            self.seen[me].absent = true;
            return Want::Refused;
        }
        let higher = node.height() > self.height(self.tip);
        if parent_unsure {
            // on a line that is bad in truth: it can at most be kept aside
            self.seen[me].unsure = true;
            self.seen[me].absent = higher;
            if let Some(c) = self.culprit(me).filter(|_| higher) {
                self.seen[c].flag = true;
            }
            return if higher { Want::Refused } else { Want::Either };
        }
        if !higher {
            return Want::Aside;
        }
        match self.culprit(me) {
            None => {
                self.tip = me;
                self.settle();
                Want::Tip
            }
            Some(c) => {
                self.seen[c].flag = true;
                self.seen[me].absent = true;
                Want::Refused
            }
        }
    }

    /// The tips an operator's command may leave: the best usable line; the current one if it is among the best.
    fn best(&mut self) -> Vec<usize> {
        let usable: Vec<usize> = (0..self.seen.len()).filter(|i| !self.bad(*i) && self.culprit(*i).is_none() && !self.too_deep(*i)).collect();
        let top = usable.iter().map(|i| self.height(*i)).max().unwrap();
        // bad lines that may have been tried on the way
        for i in 0..self.seen.len() {
            if self.culprit(i).is_some() && !self.seen[i].absent {
                self.seen[i].unsure = true;
            }
        }
        if self.height(self.tip) == top { vec![self.tip] } else { usable.into_iter().filter(|i| self.height(*i) == top).collect() }
    }

    fn invalidate(&mut self, i: usize) -> Vec<usize> {
        self.seen[i].flag = true;
        if self.line(self.tip).contains(&i) {
            self.tip = self.seen[i].parent;
            self.best()
        } else {
            vec![self.tip]
        }
    }

    fn reset(&mut self, i: usize) -> Vec<usize> {
        for j in self.below(i) {
            self.seen[j].flag = self.seen[j].kind.is_some_and(Kind::bad_check);
        }
        if self.bad(i) {
            // still on a bad line, though not itself on record as bad
            for j in self.below(i) {
                self.seen[j].unsure = true;
            }
        }
        self.best()
    }
}

pub struct Tour<'a> {
    pub lab: &'a Lab,
    pub kinds: &'a [Kind],
    pub blocks: usize,
    /// how many of the operations may be an operator's
    pub others: usize,
    /// how many lines of blocks there may be at once
    pub lines: usize,
    /// do every whole walk once more, without a restart after every step
    pub warm: bool,
    pub c: &'a PartCtx<'a>,
}

impl<'a> Tour<'a> {
    pub fn of(lab: &'a Lab, kinds: &'a [Kind], blocks: usize, c: &'a PartCtx<'a>) -> Self {
        Tour { lab, kinds, blocks, others: 0, lines: SWEEP, warm: false, c }
    }
    pub fn options(&self, walk: &Walk) -> Vec<Op> {
        let ends = |i: usize| !walk.seen.iter().any(|s| s.parent == i);
        let lines = (0..walk.seen.len()).filter(|i| ends(*i)).count();
        let mut v: Vec<Op> = (0..walk.seen.len())
            .filter(|p| ends(*p) || lines < self.lines)
            .flat_map(|p| self.kinds.iter().map(move |k| Op::Deliver(p, *k)))
            .collect();
        if walk.others < self.others {
            for i in 1..walk.seen.len() {
                let buried = walk.height(i) <= walk.floor && walk.line(walk.tip).contains(&i);
                if !walk.seen[i].absent && !buried {
                    v.push(Op::Invalidate(i));
                    // to declare a block good whose parent is not makes no sense
                    if !walk.bad(walk.seen[i].parent) {
                        v.push(Op::Reset(i));
                    }
                }
            }
        }
        v
    }

    pub fn step(&self, walk: &Walk, op: Op) -> Option<Walk> {
        let c = self.c;
        let mut next = walk.clone();
        next.names.push(match op {
            Op::Deliver(p, k) => format!("{}:{k:?} on {p}", walk.seen.len()),
            Op::Invalidate(i) => format!("invalidate {i}"),
            Op::Reset(i) => format!("reset {i}"),
        });
        let key = || format!("after {:?}: {}", walk.seen[0].node.path.iter().map(|s| s.0).collect::<Vec<_>>(), next.names.join(", "));
        let mut model = next.clone();
        let mut block = None;
        let (want, tips) = match op {
            Op::Deliver(parent, kind) => {
                let salt = walk.seen.len() as u8;
                let node = match self.lab.child(&walk.seen[parent].node, kind, salt) {
                    Ok(Some(n)) => n,
                    Ok(None) => return None,
                    Err(e) => {
                        c.fail(key(), e);
                        return None;
                    }
                };
                block = node.block.clone();
                let want = model.deliver(parent, &node, kind);
                (want, vec![model.tip])
            }
            Op::Invalidate(i) => {
                model.others += 1;
                (Want::Done, model.invalidate(i))
            }
            Op::Reset(i) => {
                model.others += 1;
                (Want::Done, model.reset(i))
            }
        };
        let spy = Spy::of(&walk.image);
        type Got = (Result<(), String>, Result<bool, String>, Id<GenBlock>, bool, u64);
        let r = guard(|| -> Result<Got, String> {
            let mut ch = self.lab.w.open(&spy)?;
            let (early, r) = match (op, &block) {
                (Op::Deliver(..), Some(b)) => {
                    let early = ch.preliminary_block_check(b.clone()).map(|_| ()).map_err(|e| e.to_string());
                    (early, ch.process_block(b.clone(), BlockSource::Local).map(|i| i.is_some()).map_err(|e| e.to_string()))
                }
                (Op::Invalidate(i), _) => {
                    let id = Id::new(walk.seen[i].node.id().to_hash());
                    (Ok(()), ch.invalidate_block(&id).map(|_| true).map_err(|e| e.to_string()))
                }
                (Op::Reset(i), _) => {
                    let id = Id::new(walk.seen[i].node.id().to_hash());
                    (Ok(()), ch.reset_block_failure_flags(&id).map(|_| true).map_err(|e| e.to_string()))
                }
                _ => unreachable!(),
            };
            let tip = ch.get_best_block_id().map_err(|e| e.to_string())?;
            let floor = ch.get_min_height_with_allowed_reorg().map_err(|e| e.to_string())?.into_int();
            let again = block.as_ref().is_some_and(|b| ch.process_block(b.clone(), BlockSource::Local).is_ok());
            Ok((early, r, tip, again, floor))
        });
        let (early, r, tip, again, floor) = match r {
            Ok(Ok(v)) => v,
            Ok(Err(e)) | Err(e) => {
                c.fail(key(), e);
                return None;
            }
        };
        let fine = match want {
            Want::Tip | Want::Done => r == Ok(true),
            Want::Aside => r == Ok(false),
            Want::Refused => r.is_err(),
            Want::Either => r != Ok(true),
        };
        if !fine {
            c.fail(key(), format!("{r:?} where {want:?} is due"));
            return None;
        }
        if let Op::Deliver(parent, kind) = op {
            let me = model.seen.len() - 1;
            if want == Want::Either {
                model.seen[me].absent = r.is_err();
            } else {
                let due = kind.bad_check() || (walk.bad(parent) && !walk.seen[parent].unsure) || walk.too_deep(parent);
                if due && early.is_ok() {
                    c.fail(key(), "the preliminary check finds nothing wrong with it");
                }
                if !due && early.is_err() && !walk.seen[parent].unsure {
                    c.fail(key(), format!("the preliminary check refuses it: {early:?}"));
                }
            }
        }
        if again {
            c.fail(key(), "the same block was taken a second time");
        }
        let Some(t) = tips.iter().find(|t| model.seen[**t].node.id() == tip) else {
            let due: Vec<_> = tips.iter().map(|t| &model.seen[*t].node.path).collect();
            c.fail(key(), format!("the tip is {tip:?} where one of {due:?} is due"));
            return None;
        };
        model.tip = *t;
        model.settle();
        model.ops.push((op, block));
        c.eq(|| format!("{}: the height below which nothing is reorganised", key()), &floor, &model.floor);
        let image = spy.image();
        let d = self.lab.same_as_replay(&image, &model.seen[model.tip].node, model.others == 0);
        if !d.is_empty() {
            c.fail(key(), format!("not what the main chain alone leaves: {}", d.join("; ")));
            return None;
        }
        // an unwelcome block changes nothing, save that blocks are on record as bad
        if r.is_err() {
            let d = diff(&image, &walk.image, &[INDEX]);
            if !d.is_empty() {
                c.fail(key(), format!("a refused block left traces: {}", d.join("; ")));
                return None;
            }
            for (k, v) in walk.image[INDEX].iter() {
                if image[INDEX].get(k) != Some(v) {
                    let i = (0..model.seen.len()).find(|i| model.seen[*i].node.block.as_ref().is_some_and(|b| &b.get_id().encode() == k));
                    if !i.is_some_and(|i| model.bad(i)) {
                        c.fail(key(), "a refused block changed the record of a good one");
                    }
                }
            }
        }
        c.outcome(match (want, op) {
            (Want::Done, Op::Invalidate(_)) if model.tip != walk.tip => "invalidated, another tip",
            (Want::Done, Op::Invalidate(_)) => "invalidated aside",
            (Want::Done, _) if model.tip != walk.tip => "cleared, another tip",
            (Want::Done, _) => "cleared",
            (Want::Tip, _) if model.seen[model.tip].parent != walk.tip => "reorganised",
            (Want::Tip, _) => "extended",
            (Want::Aside, _) => "kept aside",
            (Want::Either, _) => "on a bad line",
            (Want::Refused, Op::Deliver(p, k)) if k.good() && !walk.bad(p) => "branch found bad",
            (Want::Refused, _) => "refused",
        });
        model.image = image;
        Some(model)
    }

    fn walk(&self, w: &Walk) {
        if w.names.len() >= self.blocks {
            self.c.traces(1);
            if self.warm {
                self.once_more(w);
            }
            return;
        }
        for op in self.options(w) {
            if self.c.stop() {
                return;
            }
            if let Some(n) = self.step(w, op) {
                self.c.states(1);
                self.c.transitions(1);
                self.walk(&n);
            }
        }
    }

    /// The whole walk in one process must lead to the same.
    fn once_more(&self, w: &Walk) {
        let spy = Spy::of(&w.begin);
        let r = guard(|| -> Result<(), String> {
            let mut ch = self.lab.w.open(&spy)?;
            for (op, block) in &w.ops {
                match (op, block) {
                    (Op::Deliver(..), Some(b)) => {
                        let _ = ch.preliminary_block_check(b.clone());
                        let _ = ch.process_block(b.clone(), BlockSource::Peer);
                        let _ = ch.process_block(b.clone(), BlockSource::Local);
                    }
                    (Op::Invalidate(i), _) => {
                        let _ = ch.invalidate_block(&Id::new(w.seen[*i].node.id().to_hash()));
                    }
                    (Op::Reset(i), _) => {
                        let _ = ch.reset_block_failure_flags(&Id::new(w.seen[*i].node.id().to_hash()));
                    }
                    _ => unreachable!(),
                }
            }
            Ok(())
        });
        let key = || format!("without a restart, after {:?}: {}", w.seen[0].node.path.iter().map(|s| s.0).collect::<Vec<_>>(), w.names.join(", "));
        self.c.evals(1);
        match r {
            Ok(Ok(())) => {
                let d = diff(&spy.image(), &w.image, &[]);
                if !d.is_empty() {
                    self.c.fail(key(), format!("something else than with restarts: {}", d.join("; ")));
                }
            }
            Ok(Err(e)) | Err(e) => self.c.fail(key(), e),
        }
    }

    /// Every step of every walk.
    pub fn steps(&self, bases: &[Vec<Kind>]) -> Vec<(Walk, Op, Walk)> {
        self.steps_from(bases, true)
    }
    pub fn steps_from(&self, bases: &[Vec<Kind>], deep: bool) -> Vec<(Walk, Op, Walk)> {
        let mut front: Vec<Walk> = self.starts(bases, deep);
        let mut all = vec![];
        for _ in 0..self.blocks {
            let todo: Vec<(usize, Op)> = front.iter().enumerate().flat_map(|(i, w)| self.options(w).into_iter().map(move |o| (i, o))).collect();
            let next = Mutex::new(vec![]);
            self.c.par(todo.len(), |i| {
                let (w, o) = todo[i];
                if let Some(n) = self.step(&front[w], o) {
                    next.lock().unwrap().push((i, front[w].clone(), o, n));
                }
            });
            let mut next = next.into_inner().unwrap();
            next.sort_by_key(|n| n.0);
            front = next.iter().map(|n| n.3.clone()).collect();
            all.extend(next.into_iter().map(|(_, w, o, n)| (w, o, n)));
        }
        all
    }

    /// All walks from here, in parallel.
    pub fn all(&self, start: Vec<Walk>) {
        let mut front = start;
        for _ in 0..self.blocks.min(2) {
            let todo: Vec<(usize, Op)> = front.iter().enumerate().flat_map(|(i, w)| self.options(w).into_iter().map(move |o| (i, o))).collect();
            let next = Mutex::new(vec![]);
            self.c.par(todo.len(), |i| {
                let (w, o) = todo[i];
                if let Some(n) = self.step(&front[w], o) {
                    self.c.states(1);
                    self.c.transitions(1);
                    next.lock().unwrap().push((i, n));
                }
            });
            let mut next = next.into_inner().unwrap();
            next.sort_by_key(|(i, _)| *i);
            front = next.into_iter().map(|(_, n)| n).collect();
        }
        self.c.par(front.len(), |i| self.walk(&front[i]));
    }

    /// From every one of these bases; with `deep`, the last block of a base may be left behind too.
    pub fn bases(&self, bases: &[Vec<Kind>], deep: bool) {
        self.all(self.starts(bases, deep));
    }
    fn starts(&self, bases: &[Vec<Kind>], deep: bool) -> Vec<Walk> {
        let mut start = vec![];
        for b in bases {
            match self.lab.chain(b) {
                Ok(Some(n)) => {
                    let mut nodes = vec![n];
                    if deep && !b.is_empty() {
                        match self.lab.chain(&b[..b.len() - 1]) {
                            Ok(Some(p)) => nodes.insert(0, p),
                            _ => continue,
                        }
                    }
                    start.push(Walk::start(&nodes, self.lab.w.reorg_depth));
                }
                Ok(None) => {}
                Err(e) => self.c.fail(format!("{b:?}"), e),
            }
        }
        start
    }
}

use Kind::*;

/// Every stage of the lives of tokens, pools and orders.
fn stages(k: Kind, n: usize) -> Vec<Vec<Kind>> {
    (0..=n).map(|i| vec![k; i]).collect()
}

const SWEEP: usize = usize::MAX;

pub fn run(ctx: &Ctx) {
    let lab = Lab::new(World::new(1000, true, |b| b));
    for (name, kinds, n) in [("tokens", &[Token, Move], 8), ("pools", &[Stake, Move], 5), ("orders", &[Order, Move], 5)] {
        let note = "every tree of blocks in every order of delivery, on every stage of the life of the account";
        ctx.part(name, note, |c| Tour::of(&lab, kinds, ctx.pick(3, 5), c).bases(&stages(kinds[0], n), true));
    }
    ctx.part("mixed", "every tree of blocks of every kind in every order of delivery, without and with restarts", |c| {
        let kinds = &[Empty, Move, Mixed, Reward, Token, Stake, Order];
        Tour { warm: true, ..Tour::of(&lab, kinds, ctx.pick(3, 4), c) }.bases(&[vec![]], false);
    });
    ctx.part("epochs", "every race of two lines across several epochs, with restarts", |c| {
        Tour { lines: 2, ..Tour::of(&lab, &[Stake, Empty], ctx.pick(6, 8), c) }.bases(&[vec![], vec![Stake], vec![Stake, Empty]], false);
    });
    ctx.part("races", "every race of two long lines", |c| {
        Tour { lines: 2, ..Tour::of(&lab, &[Stake], ctx.pick(9, 12), c) }.bases(&[vec![]], false);
    });
    ctx.part("operator", "blocks may be declared bad and good again at any time", |c| {
        let b: &[Vec<Kind>] = &[vec![], vec![Token, Stake]];
        Tour { others: 2, warm: true, ..Tour::of(&lab, &[Mixed, Stake], ctx.pick(4, 5), c) }.bases(b, true);
        Tour { others: 4, warm: true, ..Tour::of(&lab, &[Move], ctx.pick(5, 6), c) }.bases(&[vec![]], true);
    });
    ctx.part("limit", "reorganisations no deeper than allowed", |c| {
        let lab = Lab::new(World::new(2, true, |b| b));
        Tour::of(&lab, &[Move], ctx.pick(6, 7), c).bases(&[vec![]], true);
        Tour { others: 2, warm: true, ..Tour::of(&lab, &[Move], ctx.pick(5, 6), c) }.bases(&[vec![], vec![Move, Move]], true);
    });
    ctx.part("orphans", "every tree of blocks, delivered in every order, parents first or not", |c| orphans(&lab, ctx, c));
}

/// All trees of n blocks, delivered in all orders in one process.
fn orphans(lab: &Lab, ctx: &Ctx, c: &PartCtx) {
    for (n, broken) in [(ctx.pick(4, 5), false), (ctx.pick(4, 5), true)] {
        let shapes: Vec<Vec<usize>> = (0..(1..=n).product::<usize>())
            .map(|mut x| {
                (1..=n)
                    .map(|i| {
                        let p = x % i;
                        x /= i;
                        p
                    })
                    .collect()
            })
            .collect();
        let orders = mc_kit::permutations(n);
        let picks: Vec<usize> = if broken { (1..=n).collect() } else { vec![0] };
        c.par(shapes.len() * picks.len(), |x| {
            let (shape, bad) = (&shapes[x / picks.len()], picks[x % picks.len()]);
            // a block cannot follow a broken one except as an orphan, so such blocks extend the branch as if it were fine
            let mut nodes = vec![lab.root.clone()];
            let mut usable = vec![true];
            for (i, p) in shape.iter().enumerate() {
                let kind = if i + 1 == bad { Overspend } else { Move };
                match lab.child(&nodes[*p], kind, i as u8) {
                    Ok(Some(n)) => {
                        nodes.push(n);
                        usable.push(usable[*p] && i + 1 != bad);
                    }
                    Ok(None) => return,
                    Err(e) => return c.fail(format!("{shape:?}"), e),
                }
            }
            for o in &orders {
                if c.stop() {
                    return;
                }
                let key = || format!("parents {shape:?}, delivered in the order {:?}, block {bad} broken", o.iter().map(|i| i + 1).collect::<Vec<_>>());
                let spy = Spy::of(&lab.w.start);
                let mut have = vec![true];
                have.resize(n + 1, false);
                let mut tip = 0;
                let r = guard(|| -> Result<(), String> {
                    let mut ch = lab.w.open(&spy)?;
                    for i in o.iter().map(|i| i + 1) {
                        have[i] = true;
                        let _ = ch.process_block(nodes[i].block.clone().unwrap(), BlockSource::Local);
                        let linked: Vec<usize> = (0..=n)
                            .filter(|j| {
                                let mut j = *j;
                                while j > 0 && have[j] && usable[j] {
                                    j = shape[j - 1];
                                }
                                j == 0
                            })
                            .collect();
                        let top = linked.iter().map(|j| nodes[*j].height()).max().unwrap();
                        let got = ch.get_best_block_id().map_err(|e| e.to_string())?;
                        if nodes[tip].height() < top {
                            match linked.iter().find(|j| nodes[**j].height() == top && nodes[**j].id() == got) {
                                Some(j) => tip = *j,
                                None => return Err(format!("after block {i} the tip is {got:?}, not one of height {top}")),
                            }
                        } else if nodes[tip].id() != got {
                            return Err(format!("after block {i} the tip is {got:?} for no reason"));
                        }
                        c.transitions(1);
                    }
                    Ok(())
                });
                c.evals(1);
                c.traces(1);
                match r {
                    Ok(Ok(())) => {
                        let d = lab.same_as_replay(&spy.image(), &nodes[tip], true);
                        if !d.is_empty() {
                            c.fail(key(), format!("not what the main chain alone leaves: {}", d.join("; ")));
                        }
                    }
                    Ok(Err(e)) | Err(e) => c.fail(key(), e),
                }
            }
        });
    }
}

pub fn run_bad(ctx: &Ctx) {
    let lab = Lab::new(World::new(1000, true, |b| b));
    ctx.part("accounts", "every tree with blocks that misuse a token, a delegation or an order", |c| {
        let n = ctx.pick(3, 4);
        Tour { warm: true, ..Tour::of(&lab, &[Token, BadNonce], n, c) }.bases(&[vec![Token, Token], vec![Token; 3]], true);
        Tour { warm: true, ..Tour::of(&lab, &[Token, FrozenToken], n, c) }.bases(&[vec![Token; 4], vec![Token; 3]], true);
        Tour { warm: true, ..Tour::of(&lab, &[Stake, Overdraw], n, c) }.bases(&[vec![Stake; 2], vec![Stake; 3]], true);
        Tour { warm: true, ..Tour::of(&lab, &[Order, Overfill], n, c) }.bases(&[vec![Order], vec![Order; 2]], true);
    });
    ctx.part("kinds", "every tree with blocks broken in any way", |c| {
        let kinds = &[Move, DoubleSpend, Overspend, TooEarly, GreedyReward, BadMerkle, SameInputTwice, FromTheFuture, TooOld, UnlockedReward];
        Tour { warm: true, ..Tour::of(&lab, kinds, ctx.pick(3, 4), c) }.bases(&[vec![Move]], false);
    });
    ctx.part("branches", "every tree of more blocks with two ways to be broken", |c| {
        Tour { warm: true, ..Tour::of(&lab, &[Move, Overspend, BadMerkle], ctx.pick(4, 5), c) }.bases(&[vec![]], false);
        Tour { warm: true, ..Tour::of(&lab, &[Stake, GreedyReward], ctx.pick(4, 5), c) }.bases(&[vec![]], false);
    });
    ctx.part("operator", "blocks may be declared bad and good again at any time", |c| {
        Tour { others: 2, warm: true, ..Tour::of(&lab, &[Move, Overspend], ctx.pick(4, 5), c) }.bases(&[vec![Move]], true);
    });
}
