use bytes::Bytes;
use rlp::{Decodable, DecoderError, Encodable, Rlp, RlpStream};

use crate::Codec;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AggregatedSignature {
    pub signature:      Bytes,
    pub address_bitmap: Bytes,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Proof {
    pub epoch_id:   u64,
    pub round:      u64,
    pub epoch_hash: Bytes,
    pub signature:  AggregatedSignature,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Commit<T: Codec> {
    pub epoch_id: u64,
    pub content:  T,
    pub proof:    Proof,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node {
    pub address:        Bytes,
    pub propose_weight: u8,
    pub vote_weight:    u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Status {
    pub epoch_id:       u64,
    pub interval:       Option<u64>,
    pub authority_list: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SignedProposal<T: Codec> {
    pub signature: Bytes,
    pub content:   T,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SignedVote {
    pub signature: Bytes,
    pub vote:      Bytes,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AggregatedVote {
    pub signature: Bytes,
    pub vote:      Bytes,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OverlordMsg<T: Codec> {
    SignedProposal(SignedProposal<T>),
    SignedVote(SignedVote),
    AggregatedVote(AggregatedVote),
    RichStatus(Status),
}

impl<T: Codec> Encodable for SignedProposal<T> {
    fn rlp_append(&self, s: &mut RlpStream) {
        let content = self.content.encode().unwrap().to_vec();
        s.begin_list(2).append(&self.signature.to_vec()).append(&content);
    }
}

impl<T: Codec> Decodable for SignedProposal<T> {
    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
        let signature: Vec<u8> = r.val_at(0)?;
        let content: Vec<u8> = r.val_at(1)?;
        let content = T::decode(Bytes::from(content)).map_err(|_| DecoderError::Custom("content"))?;
        Ok(SignedProposal { signature: Bytes::from(signature), content })
    }
}

impl Encodable for SignedVote {
    fn rlp_append(&self, s: &mut RlpStream) {
        s.begin_list(2).append(&self.signature.to_vec()).append(&self.vote.to_vec());
    }
}

impl Decodable for SignedVote {
    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
        let a: Vec<u8> = r.val_at(0)?;
        let b: Vec<u8> = r.val_at(1)?;
        Ok(SignedVote { signature: Bytes::from(a), vote: Bytes::from(b) })
    }
}

impl Encodable for AggregatedVote {
    fn rlp_append(&self, s: &mut RlpStream) {
        s.begin_list(2).append(&self.signature.to_vec()).append(&self.vote.to_vec());
    }
}

impl Decodable for AggregatedVote {
    fn decode(r: &Rlp) -> Result<Self, DecoderError> {
        let a: Vec<u8> = r.val_at(0)?;
        let b: Vec<u8> = r.val_at(1)?;
        Ok(AggregatedVote { signature: Bytes::from(a), vote: Bytes::from(b) })
    }
}
