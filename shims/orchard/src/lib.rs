//! Stand-in for `orchard` (which cannot be fetched offline). GroveDB's server
//! code uses it as (1) a 2-to-1 Merkle hash over canonical 32-byte field
//! encodings and (2) byte layouts of note ciphertexts. Both are modelled; the
//! Sinsemilla hash is replaced with an abstract collision-free function
//! (Blake3 with the top byte cleared, so that every output is a canonical
//! encoding) that agrees with Orchard on the one constant GroveDB embeds: the
//! root of the empty depth-32 tree. What GroveDB only re-exports is an opaque
//! type.

pub const NOTE_COMMITMENT_TREE_DEPTH: usize = 32;

pub use crate::tree::Anchor;

pub mod tree {
    use incrementalmerkletree::{Hashable, Level};
    use subtle::CtOption;

    /// little-endian modulus of the Pallas base field
    const P: [u8; 32] = [
        0x01, 0x00, 0x00, 0x00, 0xed, 0x30, 0x2d, 0x99, 0x1b, 0xf9, 0x4c, 0x09, 0xfc, 0x98, 0x46,
        0x22, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
        0x00, 0x40,
    ];

    const EMPTY_ROOT_32: [u8; 32] = [
        0xae, 0x29, 0x35, 0xf1, 0xdf, 0xd8, 0xa2, 0x4a, 0xed, 0x7c, 0x70, 0xdf, 0x7d, 0xe3, 0xa6,
        0x68, 0xeb, 0x7a, 0x49, 0xb1, 0x31, 0x98, 0x80, 0xdd, 0xe2, 0xbb, 0xd9, 0x03, 0x1a, 0xe5,
        0xd8, 0x2f,
    ];

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct MerkleHashOrchard([u8; 32]);

    pub(crate) fn canonical(bytes: &[u8; 32]) -> bool {
        for i in (0..32).rev() {
            if bytes[i] != P[i] {
                return bytes[i] < P[i];
            }
        }
        false
    }

    impl MerkleHashOrchard {
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
            CtOption::new(MerkleHashOrchard(*bytes), (canonical(bytes) as u8).into())
        }
        pub fn from_cmx(cmx: &crate::note::ExtractedNoteCommitment) -> Self {
            MerkleHashOrchard(cmx.to_bytes())
        }
    }

    impl Hashable for MerkleHashOrchard {
        fn empty_leaf() -> Self {
            let mut b = [0u8; 32];
            b[0] = 2;
            MerkleHashOrchard(b)
        }
        fn combine(level: Level, a: &Self, b: &Self) -> Self {
            let mut h = blake3::Hasher::new();
            h.update(b"sinsemilla");
            h.update(&[u8::from(level)]);
            h.update(&a.0);
            h.update(&b.0);
            let mut out = *h.finalize().as_bytes();
            out[31] = 0;
            MerkleHashOrchard(out)
        }
        fn empty_root(level: Level) -> Self {
            if u8::from(level) == 32 {
                return MerkleHashOrchard(EMPTY_ROOT_32);
            }
            let mut v = Self::empty_leaf();
            for i in 0..u8::from(level) {
                v = Self::combine(Level::from(i), &v, &v);
            }
            v
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Anchor([u8; 32]);
    impl Anchor {
        pub fn empty_tree() -> Self {
            Anchor(EMPTY_ROOT_32)
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(bytes: [u8; 32]) -> CtOption<Self> {
            CtOption::new(Anchor(bytes), (canonical(&bytes) as u8).into())
        }
    }
    impl From<MerkleHashOrchard> for Anchor {
        fn from(h: MerkleHashOrchard) -> Self {
            Anchor(h.0)
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct MerklePath {
        position: u32,
        auth_path: Vec<MerkleHashOrchard>,
    }
    impl From<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>> for MerklePath {
        fn from(p: incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>) -> Self {
            MerklePath {
                position: u64::from(p.position()) as u32,
                auth_path: p.path_elems().to_vec(),
            }
        }
    }
    impl MerklePath {
        pub fn root(&self, cmx: crate::note::ExtractedNoteCommitment) -> Anchor {
            let mut cur = MerkleHashOrchard::from_cmx(&cmx);
            for (i, s) in self.auth_path.iter().enumerate() {
                cur = if (self.position >> i) & 1 == 0 {
                    MerkleHashOrchard::combine(Level::from(i as u8), &cur, s)
                } else {
                    MerkleHashOrchard::combine(Level::from(i as u8), s, &cur)
                };
            }
            Anchor(cur.0)
        }
        pub fn position(&self) -> u32 {
            self.position
        }
        pub fn auth_path(&self) -> &[MerkleHashOrchard] {
            &self.auth_path
        }
    }
}

pub mod builder {
    pub struct Builder;
    pub struct BundleType;
}
pub mod bundle {
    pub struct BatchValidator;
    pub struct Authorized;
    pub struct Flags;
}
pub mod circuit {
    pub struct ProvingKey;
    pub struct VerifyingKey;
}
pub mod keys {
    pub struct FullViewingKey;
    pub struct IncomingViewingKey;
    pub struct OutgoingViewingKey;
    pub struct PreparedIncomingViewingKey;
    pub struct Scope;
    pub struct SpendAuthorizingKey;
    pub struct SpendValidatingKey;
    pub struct SpendingKey;
}
pub mod memo {
    use crate::zcash_note_encryption::note_bytes::{NoteBytes, NoteBytesData};
    pub const COMPACT_NOTE_SIZE: usize = 52;
    pub trait MemoSize: Clone + std::fmt::Debug {
        type NoteCiphertextBytes: NoteBytes + Clone + std::fmt::Debug;
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct DashMemo;
    impl MemoSize for DashMemo {
        type NoteCiphertextBytes = NoteBytesData<104>;
    }
}
pub mod note {
    use crate::memo::MemoSize;
    use subtle::CtOption;
    #[derive(Clone, Debug)]
    pub struct TransmittedNoteCiphertext<M: MemoSize> {
        pub epk_bytes: [u8; 32],
        pub enc_ciphertext: M::NoteCiphertextBytes,
        pub out_ciphertext: [u8; 80],
    }
    impl<M: MemoSize> TransmittedNoteCiphertext<M> {
        pub fn from_parts(
            epk_bytes: [u8; 32],
            enc_ciphertext: M::NoteCiphertextBytes,
            out_ciphertext: [u8; 80],
        ) -> Self {
            TransmittedNoteCiphertext {
                epk_bytes,
                enc_ciphertext,
                out_ciphertext,
            }
        }
    }
    pub struct RandomSeed;
    pub struct Nullifier;
    pub struct Rho;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct ExtractedNoteCommitment([u8; 32]);
    impl ExtractedNoteCommitment {
        pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
            CtOption::new(
                ExtractedNoteCommitment(*b),
                (crate::tree::canonical(b) as u8).into(),
            )
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
    }
}
pub mod note_encryption {
    pub struct CompactAction;
    pub struct OrchardDomain;
}
pub mod primitives {
    pub mod redpallas {}
}
pub mod value {
    pub struct NoteValue;
    pub struct ValueCommitment;
}
pub mod zcash_note_encryption {
    pub fn try_compact_note_decryption() {}
    pub fn try_note_decryption() {}
    pub trait Domain {}
    pub trait ShieldedOutput {}
    pub struct EphemeralKeyBytes(pub [u8; 32]);
    pub mod note_bytes {
        pub trait NoteBytes: AsRef<[u8]> + AsMut<[u8]> + Sized {
            fn from_slice(bytes: &[u8]) -> Option<Self>;
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct NoteBytesData<const N: usize>(pub [u8; N]);
        impl<const N: usize> AsRef<[u8]> for NoteBytesData<N> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const N: usize> AsMut<[u8]> for NoteBytesData<N> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl<const N: usize> NoteBytes for NoteBytesData<N> {
            fn from_slice(bytes: &[u8]) -> Option<Self> {
                Some(NoteBytesData(bytes.try_into().ok()?))
            }
        }
    }
}
pub struct Action;
pub struct Address;
pub struct Bundle;
pub struct Note;
pub struct Proof;
