//! The part of the interface that the protocols in `/repo/src/protocols` use (feature `rounds`).
use alloc::{
    boxed::Box,
    collections::{BTreeMap, BTreeSet},
    format,
    string::String,
    vec::Vec,
};
use core::{any::Any, fmt::Debug, fmt::Display};

use rand_core::CryptoRngCore;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

pub use super::protocol_ids::PartyId;
pub use crate::session::LocalError;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct RoundId(u8);

impl RoundId {
    pub fn new(n: u8) -> Self {
        Self(n)
    }
}

impl From<u8> for RoundId {
    fn from(n: u8) -> Self {
        Self(n)
    }
}

impl PartialEq<u8> for RoundId {
    fn eq(&self, rhs: &u8) -> bool {
        self.0 == *rhs
    }
}

#[derive(Debug, Clone)]
pub struct BoxedFormat(());

impl BoxedFormat {
    pub fn new() -> Self {
        Self(())
    }
    pub fn write<T: Serialize>(&self, value: T) -> Result<Box<[u8]>, LocalError> {
        serde_json::to_vec(&value).map(Vec::into_boxed_slice).map_err(|e| LocalError::new(format!("{e}")))
    }
    pub fn read<T: DeserializeOwned>(&self, bytes: &[u8]) -> Result<T, String> {
        serde_json::from_slice(bytes).map_err(|e| format!("{e}"))
    }
}

#[derive(Debug, Clone)]
pub enum MessageValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}

#[derive(Debug, Clone)]
pub enum ProtocolValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}

impl From<LocalError> for ProtocolValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

impl From<MessageError> for ProtocolValidationError {
    fn from(e: MessageError) -> Self {
        Self::InvalidEvidence(e.0)
    }
}

/// The message part is absent, present when it should not be, or cannot be deserialized.
#[derive(Debug, Clone)]
pub struct MessageError(pub String);

pub trait ProtocolMessagePart: Sized {
    fn none() -> Self;
    fn maybe_message(&self) -> Option<&[u8]>;
    fn from_bytes(bytes: Box<[u8]>) -> Self;

    fn new<T: 'static + Serialize>(format: &BoxedFormat, message: T) -> Result<Self, LocalError> {
        Ok(Self::from_bytes(format.write(message)?))
    }
    fn is_none(&self) -> bool {
        self.maybe_message().is_none()
    }
    fn assert_is_none(&self) -> Result<(), MessageError> {
        match self.maybe_message() {
            None => Ok(()),
            Some(_) => Err(MessageError("The payload was expected to be `None`".into())),
        }
    }
    fn deserialize<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<T, MessageError> {
        let bytes = self.maybe_message().ok_or_else(|| MessageError("The payload is `None`".into()))?;
        format.read::<T>(bytes).map_err(MessageError)
    }
    fn verify_is_not<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
        match self.deserialize::<T>(format) {
            Ok(_) => Err(MessageValidationError::InvalidEvidence("Message deserialized successfully".into())),
            Err(_) => Ok(()),
        }
    }
    fn verify_is_some(&self) -> Result<(), MessageValidationError> {
        match self.maybe_message() {
            Some(_) => Ok(()),
            None => Err(MessageValidationError::InvalidEvidence("The payload is `None`".into())),
        }
    }
}

macro_rules! part {
    ($name:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $name(Option<Box<[u8]>>);
        impl ProtocolMessagePart for $name {
            fn none() -> Self {
                Self(None)
            }
            fn maybe_message(&self) -> Option<&[u8]> {
                self.0.as_deref()
            }
            fn from_bytes(bytes: Box<[u8]>) -> Self {
                Self(Some(bytes))
            }
        }
    };
}
part!(DirectMessage);
part!(EchoBroadcast);
part!(NormalBroadcast);

#[derive(Debug, Clone)]
pub struct ProtocolMessage {
    pub echo_broadcast: EchoBroadcast,
    pub normal_broadcast: NormalBroadcast,
    pub direct_message: DirectMessage,
}

#[derive(Debug, Clone, Default)]
pub struct RequiredMessageParts {
    pub echo_broadcast: bool,
    pub normal_broadcast: bool,
    pub direct_message: bool,
}

impl RequiredMessageParts {
    pub fn echo_broadcast() -> Self {
        Self { echo_broadcast: true, ..Self::default() }
    }
    pub fn normal_broadcast() -> Self {
        Self { normal_broadcast: true, ..Self::default() }
    }
    pub fn direct_message() -> Self {
        Self { direct_message: true, ..Self::default() }
    }
    pub fn and_echo_broadcast(&self) -> Self {
        Self { echo_broadcast: true, ..self.clone() }
    }
    pub fn and_normal_broadcast(&self) -> Self {
        Self { normal_broadcast: true, ..self.clone() }
    }
    pub fn and_direct_message(&self) -> Self {
        Self { direct_message: true, ..self.clone() }
    }
}

#[derive(Debug, Clone)]
pub struct RequiredMessages {
    pub this_round: RequiredMessageParts,
    pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
    pub combined_echos: Option<BTreeSet<RoundId>>,
}

impl RequiredMessages {
    pub fn new(
        this_round: RequiredMessageParts,
        previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        combined_echos: Option<BTreeSet<RoundId>>,
    ) -> Self {
        Self { this_round, previous_rounds, combined_echos }
    }
}

#[derive(Debug)]
pub struct Payload(Box<dyn Any + Send + Sync>);

impl Payload {
    pub fn new<T: 'static + Send + Sync>(payload: T) -> Self {
        Self(Box::new(payload))
    }
    pub fn empty() -> Self {
        Self::new(())
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError::new("Failed to downcast"))
    }
}

#[derive(Debug)]
pub struct Artifact(Box<dyn Any + Send + Sync>);

impl Artifact {
    pub fn new<T: 'static + Send + Sync>(artifact: T) -> Self {
        Self(Box::new(artifact))
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError::new("Failed to downcast"))
    }
}

#[derive(Debug)]
pub enum ReceiveError<Id: PartyId, P: Protocol<Id>> {
    Local(LocalError),
    InvalidMessage(MessageError),
    Protocol(P::ProtocolError),
    #[doc(hidden)]
    Phantom(core::marker::PhantomData<Id>),
}

impl<Id: PartyId, P: Protocol<Id>> ReceiveError<Id, P> {
    pub fn local(message: impl Into<String>) -> Self {
        Self::Local(LocalError::new(message))
    }
    pub fn protocol(error: P::ProtocolError) -> Self {
        Self::Protocol(error)
    }
}

impl<Id: PartyId, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

impl<Id: PartyId, P: Protocol<Id>> From<MessageError> for ReceiveError<Id, P> {
    fn from(e: MessageError) -> Self {
        Self::InvalidMessage(e)
    }
}

#[derive(Debug)]
pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
    AnotherRound(BoxedRound<Id, P>),
    Result(P::Result),
}

#[derive(Debug, Clone)]
pub struct TransitionInfo {
    pub id: RoundId,
    pub parents: BTreeSet<RoundId>,
    pub siblings: BTreeSet<RoundId>,
    pub children: BTreeSet<RoundId>,
    pub may_produce_result: bool,
}

impl TransitionInfo {
    pub fn new_linear(n: u8) -> Self {
        let parents = if n > 1 { [RoundId(n - 1)].into() } else { BTreeSet::new() };
        Self { id: RoundId(n), parents, siblings: BTreeSet::new(), children: [RoundId(n + 1)].into(), may_produce_result: false }
    }
    pub fn new_linear_terminating(n: u8) -> Self {
        Self { children: BTreeSet::new(), may_produce_result: true, ..Self::new_linear(n) }
    }
    pub fn with_children(self, children: BTreeSet<u8>) -> Self {
        Self { children: children.into_iter().map(RoundId).collect(), ..self }
    }
    pub fn with_siblings(self, siblings: BTreeSet<u8>) -> Self {
        Self { siblings: siblings.into_iter().map(RoundId).collect(), ..self }
    }
}

#[derive(Debug, Clone)]
pub enum EchoRoundParticipation<Id> {
    Default,
    Send,
    Receive { echo_targets: BTreeSet<Id> },
}

#[derive(Debug, Clone)]
pub struct CommunicationInfo<Id> {
    pub message_destinations: BTreeSet<Id>,
    pub expecting_messages_from: BTreeSet<Id>,
    pub echo_round_participation: EchoRoundParticipation<Id>,
}

impl<Id: PartyId> CommunicationInfo<Id> {
    pub fn regular(other_parties: &BTreeSet<Id>) -> Self {
        Self {
            message_destinations: other_parties.clone(),
            expecting_messages_from: other_parties.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
}

pub trait ProtocolError<Id>: Debug + Display + Clone + Send + Serialize + for<'de> Deserialize<'de> {
    type AssociatedData: Debug;

    fn required_messages(&self) -> RequiredMessages;

    #[allow(clippy::too_many_arguments)]
    fn verify_messages_constitute_error(
        &self,
        format: &BoxedFormat,
        guilty_party: &Id,
        shared_randomness: &[u8],
        associated_data: &Self::AssociatedData,
        message: ProtocolMessage,
        previous_messages: BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    ) -> Result<(), ProtocolValidationError>;
}

pub trait Protocol<Id>: 'static {
    type Result: Debug;
    type ProtocolError: ProtocolError<Id>;

    fn verify_direct_message_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &DirectMessage,
    ) -> Result<(), MessageValidationError>;
    fn verify_echo_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &EchoBroadcast,
    ) -> Result<(), MessageValidationError>;
    fn verify_normal_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &NormalBroadcast,
    ) -> Result<(), MessageValidationError>;
}

pub trait EntryPoint<Id: PartyId> {
    type Protocol: Protocol<Id>;

    fn entry_round_id() -> RoundId {
        1.into()
    }

    fn make_round(
        self,
        rng: &mut dyn CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
}

pub trait Round<Id: PartyId>: 'static + Debug + Send + Sync {
    type Protocol: Protocol<Id>;

    fn transition_info(&self) -> TransitionInfo;
    fn communication_info(&self) -> CommunicationInfo<Id>;

    fn make_direct_message(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
        _destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        Ok((DirectMessage::none(), None))
    }
    fn make_echo_broadcast(&self, _rng: &mut dyn CryptoRngCore, _format: &BoxedFormat) -> Result<EchoBroadcast, LocalError> {
        Ok(EchoBroadcast::none())
    }
    fn make_normal_broadcast(&self, _rng: &mut dyn CryptoRngCore, _format: &BoxedFormat) -> Result<NormalBroadcast, LocalError> {
        Ok(NormalBroadcast::none())
    }
    fn receive_message(&self, format: &BoxedFormat, from: &Id, message: ProtocolMessage) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
    fn finalize(
        self: Box<Self>,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
}

pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(pub Box<dyn Round<Id, Protocol = P>>);

impl<Id: PartyId, P: Protocol<Id>> Debug for BoxedRound<Id, P> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.0.fmt(f)
    }
}

impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
    pub fn new_dynamic<R: Round<Id, Protocol = P>>(round: R) -> Self {
        Self(Box::new(round))
    }
}
