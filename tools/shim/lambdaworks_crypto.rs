//! A small stand-in for lambdaworks-crypto: the same interface as far as the repository uses it.
pub mod fiat_shamir {
    pub mod transcript {
        pub trait Transcript {
            fn append(&mut self, d: &[u8]);
            fn challenge(&mut self) -> [u8; 32];
        }
    }
    pub mod default_transcript {
        use sha3::{Digest, Keccak256};
        // everything absorbed by any transcript of this thread, for demonstrations
        thread_local! { pub static LOG: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]); }
        #[derive(Clone)]
        pub struct DefaultTranscript { hasher: Keccak256 }
        impl DefaultTranscript { pub fn new() -> Self { Self { hasher: Keccak256::new() } } }
        impl super::transcript::Transcript for DefaultTranscript {
            fn append(&mut self, d: &[u8]) { LOG.with(|l| l.borrow_mut().extend_from_slice(d)); self.hasher.update(d) }
            fn challenge(&mut self) -> [u8; 32] {
                let mut r: [u8; 32] = self.hasher.finalize_reset().into();
                r.reverse();
                self.hasher.update(r);
                r
            }
        }
    }
    pub mod test_transcript {
        pub struct TestTranscript;
        impl TestTranscript { pub fn new() -> Self { Self } }
        impl super::transcript::Transcript for TestTranscript {
            fn append(&mut self, _: &[u8]) {}
            fn challenge(&mut self) -> [u8; 32] { let mut r = [0; 32]; r[31] = 1; r }
        }
    }
}

pub mod merkle_tree {
    pub mod traits {
        pub trait IsMerkleTreeBackend {
            type Node: PartialEq + Eq + Clone + Sync + Send;
            type Data: Sync + Send;
            fn hash_data(d: &Self::Data) -> Self::Node;
            fn hash_new_parent(a: &Self::Node, b: &Self::Node) -> Self::Node;
        }
    }
    pub mod backends { pub mod types {
        use super::super::traits::IsMerkleTreeBackend;
        use lambdaworks_math::{field::{element::FieldElement, traits::IsField}, traits::ByteConversion};
        use sha3::{Digest, Keccak256};
        #[derive(Clone)] pub struct Keccak256Tree<F>(std::marker::PhantomData<F>);
        #[derive(Clone)] pub struct BatchKeccak256Tree<F>(std::marker::PhantomData<F>);
        fn node(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { Keccak256::new().chain_update(a).chain_update(b).finalize().into() }
        impl<F: IsField> IsMerkleTreeBackend for Keccak256Tree<F> where FieldElement<F>: ByteConversion + Sync + Send {
            type Node = [u8; 32];
            type Data = FieldElement<F>;
            fn hash_data(d: &Self::Data) -> [u8; 32] { Keccak256::digest(d.to_bytes_be()).into() }
            fn hash_new_parent(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { node(a, b) }
        }
        impl<F: IsField> IsMerkleTreeBackend for BatchKeccak256Tree<F> where FieldElement<F>: ByteConversion + Sync + Send {
            type Node = [u8; 32];
            type Data = Vec<FieldElement<F>>;
            fn hash_data(d: &Self::Data) -> [u8; 32] {
                let mut h = Keccak256::new();
                for x in d { h.update(x.to_bytes_be()); }
                h.finalize().into()
            }
            fn hash_new_parent(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] { node(a, b) }
        }
    } }
    pub mod merkle {
        use super::{proof::Proof, traits::IsMerkleTreeBackend};
        #[derive(Clone)]
        pub struct MerkleTree<B: IsMerkleTreeBackend> { pub root: B::Node, nodes: Vec<Vec<B::Node>> }
        impl<B: IsMerkleTreeBackend> MerkleTree<B> {
            pub fn build(d: &[B::Data]) -> Self {
                let mut l: Vec<B::Node> = d.iter().map(B::hash_data).collect();
                while !l.len().is_power_of_two() { l.push(l[l.len() - 1].clone()); }
                let mut nodes = vec![l];
                while nodes[nodes.len() - 1].len() > 1 {
                    let n = nodes[nodes.len() - 1].chunks(2).map(|c| B::hash_new_parent(&c[0], &c[1])).collect();
                    nodes.push(n);
                }
                Self { root: nodes[nodes.len() - 1][0].clone(), nodes }
            }
            pub fn get_proof_by_pos(&self, mut pos: usize) -> Option<Proof<B::Node>> {
                let mut merkle_path = vec![];
                for l in &self.nodes[..self.nodes.len() - 1] { merkle_path.push(l.get(pos ^ 1)?.clone()); pos >>= 1; }
                Some(Proof { merkle_path })
            }
        }
    }
    pub mod proof {
        use super::traits::IsMerkleTreeBackend;
        use lambdaworks_math::{errors::DeserializationError, traits::{Deserializable, Serializable}};
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct Proof<T: PartialEq + Eq> { pub merkle_path: Vec<T> }
        impl<T: PartialEq + Eq + Clone> Proof<T> {
            pub fn verify<B: IsMerkleTreeBackend<Node = T>>(&self, root: &T, mut index: usize, value: &B::Data) -> bool {
                let mut h = B::hash_data(value);
                for s in &self.merkle_path {
                    h = if index % 2 == 0 { B::hash_new_parent(&h, s) } else { B::hash_new_parent(s, &h) };
                    index >>= 1;
                }
                root == &h
            }
        }
        impl Serializable for Proof<[u8; 32]> {
            fn serialize(&self) -> Vec<u8> { self.merkle_path.iter().flatten().copied().collect() }
        }
        impl Deserializable for Proof<[u8; 32]> {
            fn deserialize(bytes: &[u8]) -> Result<Self, DeserializationError> {
                Ok(Self { merkle_path: bytes.chunks(32).map(|c| c.try_into().map_err(|_| DeserializationError::InvalidAmountOfBytes)).collect::<Result<_, _>>()? })
            }
        }
    }
}
