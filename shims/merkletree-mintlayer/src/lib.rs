//! Binary merkle tree over a leaf count padded to a power of two by repeatedly hashing the last leaf.
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleTreeFormError {
    TooSmall(usize),
}
impl fmt::Display for MerkleTreeFormError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeFormError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MerkleTreeProofExtractionError {
    LeafIndexOutOfRange(u32, u32),
}
impl fmt::Display for MerkleTreeProofExtractionError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for MerkleTreeProofExtractionError {}

pub mod hasher {
    pub trait PairHasher: Clone {
        type NodeType;
        fn hash_pair(left: &Self::NodeType, right: &Self::NodeType) -> Self::NodeType;
        fn hash_single(data: &Self::NodeType) -> Self::NodeType;
    }
}

pub mod pos {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct NodePosition {
        pub level: u32,
        pub index: u32,
    }
}

pub mod tree {
    use super::hasher::PairHasher;
    use super::MerkleTreeFormError;
    use std::marker::PhantomData;
    use std::num::NonZeroU32;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct MerkleTree<T, H> {
        levels: Vec<Vec<T>>,
        _h: PhantomData<H>,
    }

    pub struct Node<'a, T>(&'a T);
    impl<'a, T> Node<'a, T> {
        pub fn hash(&self) -> &'a T {
            self.0
        }
    }

    impl<T: Clone, H: PairHasher<NodeType = T>> MerkleTree<T, H> {
        pub fn from_leaves(leaves: impl IntoIterator<Item = T>) -> Result<Self, MerkleTreeFormError> {
            let mut row: Vec<T> = leaves.into_iter().collect();
            if row.is_empty() {
                return Err(MerkleTreeFormError::TooSmall(0));
            }
            while !row.len().is_power_of_two() {
                let h = H::hash_single(row.last().unwrap());
                row.push(h);
            }
            let mut levels = vec![row];
            while levels.last().unwrap().len() > 1 {
                let next = levels.last().unwrap().chunks(2).map(|p| H::hash_pair(&p[0], &p[1])).collect();
                levels.push(next);
            }
            Ok(Self { levels, _h: PhantomData })
        }
        pub fn root(&self) -> T {
            self.levels.last().unwrap()[0].clone()
        }
        pub fn leaf_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels[0].len() as u32).unwrap()
        }
        pub fn level_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.len() as u32).unwrap()
        }
        pub fn total_node_count(&self) -> NonZeroU32 {
            NonZeroU32::new(self.levels.iter().map(|l| l.len() as u32).sum()).unwrap()
        }
        pub fn node_from_bottom(&self, level: u32, index: u32) -> Option<Node<'_, T>> {
            self.levels.get(level as usize)?.get(index as usize).map(Node)
        }
    }
}

pub mod proof {
    pub mod single {
        use crate::hasher::PairHasher;
        use crate::tree::MerkleTree;
        use crate::MerkleTreeProofExtractionError;
        use std::marker::PhantomData;

        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum PassOrFail {
            Fail,
            PassTrivially,
            PassDecisively,
        }
        impl PassOrFail {
            pub fn passed_trivially(&self) -> bool {
                matches!(self, Self::PassTrivially)
            }
            pub fn passed_decisively(&self) -> bool {
                matches!(self, Self::PassDecisively)
            }
        }

        #[must_use]
        pub struct SingleProofNodes<'a, T, H> {
            tree: &'a MerkleTree<T, H>,
            leaf: u32,
        }
        impl<'a, T: Clone, H: PairHasher<NodeType = T>> SingleProofNodes<'a, T, H> {
            pub fn from_tree_leaf(
                tree: &'a MerkleTree<T, H>,
                leaf: u32,
            ) -> Result<Self, MerkleTreeProofExtractionError> {
                let n = tree.leaf_count().get();
                if leaf >= n {
                    return Err(MerkleTreeProofExtractionError::LeafIndexOutOfRange(leaf, n));
                }
                Ok(Self { tree, leaf })
            }
            pub fn into_values(self) -> SingleProofHashes<T, H> {
                let branch = (0..self.tree.level_count().get() - 1)
                    .map(|l| self.tree.node_from_bottom(l, (self.leaf >> l) ^ 1).unwrap().hash().clone())
                    .collect();
                SingleProofHashes { leaf_index_in_level: self.leaf, branch, _h: PhantomData }
            }
        }

        #[must_use]
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct SingleProofHashes<T, H> {
            leaf_index_in_level: u32,
            branch: Vec<T>,
            _h: PhantomData<H>,
        }
        impl<T: Clone + Eq, H: PairHasher<NodeType = T>> SingleProofHashes<T, H> {
            pub fn leaf_index_in_level(&self) -> u32 {
                self.leaf_index_in_level
            }
            pub fn branch(&self) -> &[T] {
                &self.branch
            }
            pub fn into_branch(self) -> Vec<T> {
                self.branch
            }
            pub fn verify(&self, leaf: T, root: T) -> PassOrFail {
                if self.branch.is_empty() {
                    return if leaf == root { PassOrFail::PassTrivially } else { PassOrFail::Fail };
                }
                let mut h = leaf;
                for (l, sib) in self.branch.iter().enumerate() {
                    h = if (self.leaf_index_in_level >> l) & 1 == 0 {
                        H::hash_pair(&h, sib)
                    } else {
                        H::hash_pair(sib, &h)
                    };
                }
                if h == root { PassOrFail::PassDecisively } else { PassOrFail::Fail }
            }
        }
    }
}
