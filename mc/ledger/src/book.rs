//! A book of accounts kept in a store under layers of changes, explored against a flat book.
use mc_kit::PartCtx;
use std::fmt::Debug;

pub enum Act<O, U> {
    Do(O),
    Undo(U),
}

pub trait Book: Sync {
    type Store: Clone + Debug + Send + Sync;
    type Delta: Clone + Debug + Send + Sync;
    type Undo: Clone + Debug + Send + Sync;
    type Flat: Clone + Debug + PartialEq + Send + Sync;
    type Op: Clone + Debug + Send + Sync;
    fn empty(&self) -> (Self::Store, Self::Flat);
    /// A new topmost layer over the store and the layers there are.
    fn layer(&self, store: &Self::Store, layers: &[Self::Delta]) -> Self::Delta;
    fn ops(&self, flat: &Self::Flat) -> Vec<Self::Op>;
    /// What the book says after the operation; None if it must be refused.
    fn model(&self, flat: &Self::Flat, op: &Self::Op) -> Option<Self::Flat>;
    /// Whether a refusal may leave the layer unusable (an overflow half way); it must then be dropped.
    fn may_spoil(&self, _flat: &Self::Flat, _op: &Self::Op) -> bool {
        false
    }
    /// Apply to the topmost of one or two layers.
    fn act(&self, store: &Self::Store, layers: &mut [Self::Delta], act: Act<Self::Op, Self::Undo>) -> Result<Option<Self::Undo>, String>;
    /// Everything that can be asked of the topmost layer, or of the store if there is none.
    fn view(&self, store: &Self::Store, layers: &[Self::Delta]) -> Result<Self::Flat, String>;
    fn commit(&self, store: &mut Self::Store, delta: Self::Delta) -> Result<(), String>;
    fn merge(&self, _store: &Self::Store, lower: &mut Self::Delta, upper: Self::Delta) -> Result<(), String>;
    fn same(&self, view: &Self::Flat, flat: &Self::Flat) -> bool {
        view == flat
    }
    /// What else must hold in every state.
    fn invariant(&self, _flat: &Self::Flat) -> Result<(), String> {
        Ok(())
    }
    /// The store on its own, with no layer above it.
    fn store_is(&self, store: &Self::Store, flat: &Self::Flat) -> Result<(), String>;
}

#[derive(Clone)]
struct State<B: Book> {
    store: B::Store,
    layers: Vec<B::Delta>,
    flat: B::Flat,
    /// Changes since the beginning, latest last: how to undo each and what the book said before.
    stack: Vec<(B::Undo, B::Flat)>,
    saved: Vec<(B::Flat, Vec<(B::Undo, B::Flat)>)>,
    spoilt: bool,
}

#[derive(Clone, Debug)]
enum Step<O> {
    Do(O),
    Undo,
    Open,
    Merge,
    Drop,
}

pub fn explore<B: Book + Clone>(c: &PartCtx, book: &B, depth: usize) {
    let (store, flat) = book.empty();
    let init = State::<B> { store, layers: vec![], flat, stack: vec![], saved: vec![], spoilt: false };
    c.bfs(
        vec![("empty".into(), init)],
        depth,
        |s| {
            let mut v = vec![];
            if s.spoilt {
                return vec![Step::Drop];
            }
            if s.layers.len() < 2 {
                v.push(Step::Open);
            }
            if !s.layers.is_empty() {
                v.push(Step::Merge);
                v.push(Step::Drop);
                if !s.stack.is_empty() {
                    v.push(Step::Undo);
                }
                v.extend(book.ops(&s.flat).into_iter().map(Step::Do));
            }
            v
        },
        |s, step| {
            let out = match step {
                Step::Open => {
                    s.saved.push((s.flat.clone(), s.stack.clone()));
                    let new = book.layer(&s.store, &s.layers);
                    s.layers.push(new);
                    "layer opened".to_string()
                }
                Step::Drop => {
                    s.layers.pop();
                    s.spoilt = false;
                    (s.flat, s.stack) = s.saved.pop().unwrap();
                    "layer dropped".to_string()
                }
                Step::Merge => {
                    let top = s.layers.pop().unwrap();
                    s.saved.pop();
                    match s.layers.last_mut() {
                        Some(lower) => book.merge(&s.store, lower, top).map_err(|e| format!("merging the layers: {e}"))?,
                        None => book.commit(&mut s.store, top).map_err(|e| format!("committing: {e}"))?,
                    }
                    "layer merged".to_string()
                }
                Step::Undo => {
                    let (undo, before) = s.stack.pop().unwrap();
                    book.act(&s.store, &mut s.layers, Act::Undo(undo)).map_err(|e| format!("undoing: {e}"))?;
                    s.flat = before;
                    "undone".to_string()
                }
                Step::Do(op) => {
                    let want = book.model(&s.flat, op);
                    let name = format!("{op:?}");
                    let name = name.split(['(', '{', ' ']).next().unwrap_or("").to_string();
                    match (book.act(&s.store, &mut s.layers, Act::Do(op.clone())), want) {
                        (Ok(undo), Some(after)) => {
                            let before = std::mem::replace(&mut s.flat, after);
                            s.stack.push((undo.expect("an operation can be undone"), before));
                            format!("{name} done")
                        }
                        (Err(_), None) if book.may_spoil(&s.flat, op) => {
                            s.spoilt = true;
                            return Ok(format!("{name} refused, layer to be dropped"));
                        }
                        (Err(_), None) => format!("{name} refused"),
                        (got, want) => return Err(format!("got {:?}, want {}", got.map(|_| "done"), if want.is_some() { "done" } else { "refused" })),
                    }
                }
            };
            let view = book.view(&s.store, &s.layers).map_err(|e| format!("the view: {e}"))?;
            if !book.same(&view, &s.flat) {
                return Err(format!("the view says {view:?}, the flat book {:?}", s.flat));
            }
            book.invariant(&s.flat)?;
            let committed = s.saved.first().map_or(&s.flat, |s| &s.0);
            book.store_is(&s.store, committed)?;
            Ok(out)
        },
        |s| format!("{:?} {:?} {:?} {:?} {}", s.store, s.layers, s.stack, s.saved, s.spoilt),
    );
}
