//! What the explorer needs from an implementation. Implemented in mc-run for each configuration of the crate.
use crate::abs::*;
use crate::model::{Part, Which};
use bytes::{Bytes, BytesMut};
use std::any::Any;

/// A packet value of the implementation.
pub trait Pkt: Any {
    fn abs(&self) -> Abs;
    /// `Packet::write`
    fn write(&self, b: &mut BytesMut) -> Result<usize, Ev>;
    /// the packet kind's own `write`
    fn write_kind(&self, b: &mut BytesMut) -> Result<usize, Ev>;
    /// the packet kind's own `size`, where there is one
    fn size(&self) -> Option<usize>;
    /// `PartialEq` of the implementation
    fn same(&self, o: &dyn Pkt) -> bool;
    fn dup(&self) -> Box<dyn Pkt>;
    /// `Debug`, plain or pretty; whether it succeeded
    fn print(&self, w: &mut dyn std::fmt::Write, pretty: bool) -> bool;
    fn any(&self) -> &dyn Any;
}

/// An error: identity plus text, the text made on demand.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ev(pub u64);

/// What an error is about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Said {
    PacketType(u8),
    Property(u8),
    /// a reason or return code
    Code(u8),
    QoS(u8),
    Retain(u8),
    Protocol,
    Level(u8),
    /// a packet identifier of zero
    PkidZero,
    EmptyList,
    /// a string or binary field is too long
    FieldTooLong,
    /// the packet or a property section is too long
    TooLong,
    Utf8,
    Malformed,
    LengthMalformed,
    NeedMore,
    Limit,
    Other,
}

/// A printed error.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ErrText {
    pub debug: String,
    pub message: String,
    /// the numbers it carries
    pub numbers: Vec<u64>,
}

pub enum ROut {
    Pkt(Box<dyn Pkt>),
    Need(usize),
    Big { pkt: usize, max: usize },
    Err(Ev),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum COut {
    Frame { total: usize, typ: Option<u8> },
    Need(usize),
    Big { pkt: usize, max: usize },
    Err(Ev),
}

/// Convenience constructors of the crate with their arguments.
#[derive(Clone, Debug)]
pub enum Ctor {
    Publish { topic: B, qos: u8, payload: B, props: Option<Props> },
    /// Subscribe::new(Filter::new(path, qos), props)
    Subscribe { path: B, qos: u8, props: Option<Props> },
    /// Subscribe::new with a filter that has all options set explicitly
    SubscribeFilt { f: Filt, props: Option<Props> },
    SubscribeMany { filters: Vec<Filt>, props: Option<Props> },
    Unsubscribe { path: B, props: Option<Props> },
    Ack { typ: u8, pkid: u16, props: Option<Props> },
    Disconnect { code: u8 },
    /// Login::new in an otherwise minimal CONNECT
    Login { user: B, pass: B },
    /// properties from ConnectProperties::new() (false) or ::default() (true)
    ConnectProps { default: bool },
    ConnAckProps { default: bool },
    PublishPropsDefault,
    PublishDefault,
    SubscribeDefault,
    FilterDefault,
    UnsubscribeDefault,
}

pub trait Sut: Sync + Send {
    fn name(&self) -> &'static str;
    /// strings are real (UTF-8) strings
    fn utf8(&self) -> bool;
    /// `Packet::read`
    fn read(&self, b: &mut BytesMut, max: Option<usize>) -> ROut;
    /// `check`
    fn check(&self, s: &[u8], max: Option<usize>) -> COut;
    /// `check`, then the packet kind's own `read` (None: no frame, or the kind has none)
    fn read_kind(&self, frame: Bytes) -> Option<ROut>;
    fn build(&self, a: &Abs) -> Box<dyn Pkt>;
    fn construct(&self, c: &Ctor) -> Box<dyn Pkt>;
    /// `FixedHeader::new(..)`: (packet type, frame length)
    fn header(&self, byte1: u8, len_len: usize, len: usize) -> (Option<u8>, usize);
    /// `qos(n)` as the variant's number by name
    fn qos(&self, n: u8) -> Option<u8>;
    /// `DisconnectReasonCode::try_from(n)` as the variant's number by name
    fn disconnect_code(&self, n: u8) -> Option<u8>;
    /// `DisconnectReasonCode as u8` of the variant with this number by name
    fn disconnect_code_as_u8(&self, n: u8) -> u8;
    fn mqtt_string(&self, s: &'static str) -> B;
    /// The part's own writer (with the CONNECT flags it returns); None: there is none.
    fn part_write(&self, p: &Part, b: &mut BytesMut) -> Option<Result<u8, Ev>>;
    /// The part's own reader.
    fn part_read(&self, w: Which, b: &mut Bytes) -> Result<Part, Ev>;
    /// What the error says that reading these bytes gives (None: no error).
    fn error_of_read(&self, b: &[u8]) -> Option<Said>;
    /// What the error says that writing this packet gives (None: no error).
    fn error_of_write(&self, p: &dyn Pkt, b: &mut BytesMut) -> Option<Said>;
    /// Public types: name, may be sent to other threads, may be shared with other threads.
    fn auto_traits(&self) -> Vec<(&'static str, bool, bool)>;
    /// Text of the error that reading these bytes gives.
    fn read_error(&self, b: &[u8], max: Option<usize>) -> String;
    /// The error that reading these bytes gives, printed.
    fn error_text(&self, b: &[u8], max: Option<usize>) -> Option<ErrText>;
    /// The same for writing this packet.
    fn write_error_text(&self, p: &dyn Pkt) -> Option<ErrText>;
    /// How two levels of service compare (`PartialOrd`).
    fn qos_order(&self, a: u8, b: u8) -> Option<std::cmp::Ordering>;
}
