// Included once per configuration, with `sut` (the crate), `Ms` (its string type), `UTF8`, `NAME`,
// `ms(&B) -> Ms` and `mb(&Ms) -> B` in scope. Maps the crate's public types to the abstract packets,
// variant by variant and field by field, by name.
use bytes::{Bytes, BytesMut};
use mc_core::abs::*;
use mc_core::model::{Part, Which};
use mc_core::store;
use mc_core::sut::*;
use std::any::Any;
use sut::*;

pub struct It;

struct P(Packet);

fn ev<E: std::fmt::Debug>(e: &E) -> Ev {
    struct W(u64);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.as_bytes() {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
            }
            Ok(())
        }
    }
    let mut w = W(0xcbf2_9ce4_8422_2325);
    let _ = std::fmt::Write::write_fmt(&mut w, format_args!("{:?}", e));
    Ev(w.0)
}

fn rout(r: Result<Packet, Error>) -> ROut {
    match r {
        Ok(p) => ROut::Pkt(Box::new(P(p))),
        Err(Error::InsufficientBytes(n)) => ROut::Need(n),
        Err(Error::PayloadSizeLimitExceeded { pkt_size, max }) => ROut::Big { pkt: pkt_size, max },
        Err(e) => ROut::Err(ev(&e)),
    }
}

fn err_text(e: &Error) -> ErrText {
    #[allow(unreachable_patterns)]
    let numbers = match e {
        Error::InvalidPacketType(n)
        | Error::InvalidPropertyType(n)
        | Error::InvalidConnectReturnCode(n)
        | Error::InvalidReason(n)
        | Error::InvalidSubscribeReasonCode(n)
        | Error::InvalidQoS(n)
        | Error::InvalidRetainForwardRule(n)
        | Error::InvalidProtocolLevel(n) => vec![*n as u64],
        Error::InvalidRemainingLength(n) | Error::BoundaryCrossed(n) | Error::InsufficientBytes(n) => vec![*n as u64],
        Error::PayloadSizeLimitExceeded { pkt_size, max } => vec![*pkt_size as u64, *max as u64],
        _ => vec![],
    };
    ErrText { debug: format!("{e:?}"), message: format!("{e}"), numbers }
}

fn said(e: &Error) -> Said {
    #[allow(unreachable_patterns)]
    match e {
        Error::InvalidPacketType(n) => Said::PacketType(*n),
        Error::InvalidPropertyType(n) => Said::Property(*n),
        Error::InvalidConnectReturnCode(n) | Error::InvalidReason(n) | Error::InvalidSubscribeReasonCode(n) => Said::Code(*n),
        Error::InvalidQoS(n) => Said::QoS(*n),
        Error::InvalidRetainForwardRule(n) => Said::Retain(*n),
        Error::InvalidProtocol => Said::Protocol,
        Error::InvalidProtocolLevel(n) => Said::Level(*n),
        Error::PacketIdZero => Said::PkidZero,
        Error::EmptySubscription => Said::EmptyList,
        Error::BinaryDataTooLong => Said::FieldTooLong,
        Error::PayloadTooLong => Said::TooLong,
        Error::TopicNotUtf8 | Error::PayloadNotUtf8(_) => Said::Utf8,
        Error::MalformedPacket => Said::Malformed,
        Error::MalformedRemainingLength => Said::LengthMalformed,
        Error::InsufficientBytes(_) => Said::NeedMore,
        Error::PayloadSizeLimitExceeded { .. } => Said::Limit,
        _ => Said::Other,
    }
}

fn q(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        2 => QoS::ExactlyOnce,
        _ => unreachable!("harness: qos"),
    }
}
fn qn(v: QoS) -> u8 {
    match v {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}

macro_rules! table {
    ($to:ident, $from:ident, $t:ty, $n:ty, $($name:ident = $code:expr),+ $(,)?) => {
        fn $to(c: $n) -> $t {
            $(if c == $code { return <$t>::$name; })+
            unreachable!("harness: code {c}")
        }
        #[allow(unreachable_patterns)]
        fn $from(v: $t) -> $n {
            match v { $(<$t>::$name => $code,)+ }
        }
    };
}
table!(connack_to, connack_from, ConnectReturnCode, u16,
    Success = 0x00, UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85, BadUserNamePassword = 0x86, NotAuthorized = 0x87,
    ServerUnavailable = 0x88, ServerBusy = 0x89, Banned = 0x8A, BadAuthenticationMethod = 0x8C,
    TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B,
    UseAnotherServer = 0x9C, ServerMoved = 0x9D, ConnectionRateExceeded = 0x9F,
    RefusedProtocolVersion = 0x101, BadClientId = 0x102, ServiceUnavailable = 0x103);
table!(puback_to, puback_from, PubAckReason, u8,
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99);
table!(pubrec_to, pubrec_from, PubRecReason, u8,
    Success = 0x00, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99);
table!(pubrel_to, pubrel_from, PubRelReason, u8, Success = 0x00, PacketIdentifierNotFound = 0x92);
table!(pubcomp_to, pubcomp_from, PubCompReason, u8, Success = 0x00, PacketIdentifierNotFound = 0x92);
table!(unsuback_to, unsuback_from, UnsubAckReason, u8,
    Success = 0x00, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91);
table!(disc_to, disc_from, DisconnectReasonCode, u8,
    NormalDisconnection = 0x00, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80,
    MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, ServerBusy = 0x89, ServerShuttingDown = 0x8B, KeepAliveTimeout = 0x8D,
    SessionTakenOver = 0x8E, TopicFilterInvalid = 0x8F, TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94, PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B,
    UseAnotherServer = 0x9C, ServerMoved = 0x9D, SharedSubscriptionNotSupported = 0x9E,
    ConnectionRateExceeded = 0x9F, MaximumConnectTime = 0xA0,
    SubscriptionIdentifiersNotSupported = 0xA1, WildcardSubscriptionsNotSupported = 0xA2);
fn suback_to(c: u8) -> SubscribeReasonCode {
    use SubscribeReasonCode as S;
    match c {
        0x00 => S::Success(QoS::AtMostOnce),
        0x01 => S::Success(QoS::AtLeastOnce),
        0x02 => S::Success(QoS::ExactlyOnce),
        0x80 => S::Unspecified,
        0x83 => S::ImplementationSpecific,
        0x87 => S::NotAuthorized,
        0x8F => S::TopicFilterInvalid,
        0x91 => S::PkidInUse,
        0x97 => S::QuotaExceeded,
        0x9E => S::SharedSubscriptionsNotSupported,
        0xA1 => S::SubscriptionIdNotSupported,
        0xA2 => S::WildcardSubscriptionsNotSupported,
        _ => unreachable!("harness: code"),
    }
}
fn suback_from(c: SubscribeReasonCode) -> u8 {
    use SubscribeReasonCode as S;
    match c {
        S::Success(v) => qn(v),
        S::Unspecified => 0x80,
        S::ImplementationSpecific => 0x83,
        S::NotAuthorized => 0x87,
        S::TopicFilterInvalid => 0x8F,
        S::PkidInUse => 0x91,
        S::QuotaExceeded => 0x97,
        S::SharedSubscriptionsNotSupported => 0x9E,
        S::SubscriptionIdNotSupported => 0xA1,
        S::WildcardSubscriptionsNotSupported => 0xA2,
    }
}
fn ptype(t: PacketType) -> u8 {
    match t {
        PacketType::Connect => 1,
        PacketType::ConnAck => 2,
        PacketType::Publish => 3,
        PacketType::PubAck => 4,
        PacketType::PubRec => 5,
        PacketType::PubRel => 6,
        PacketType::PubComp => 7,
        PacketType::Subscribe => 8,
        PacketType::SubAck => 9,
        PacketType::Unsubscribe => 10,
        PacketType::UnsubAck => 11,
        PacketType::PingReq => 12,
        PacketType::PingResp => 13,
        PacketType::Disconnect => 14,
    }
}
fn rh_to(n: u8) -> RetainForwardRule {
    match n {
        0 => RetainForwardRule::OnEverySubscribe,
        1 => RetainForwardRule::OnNewSubscribe,
        2 => RetainForwardRule::Never,
        _ => unreachable!("harness: retain handling"),
    }
}
fn rh_from(r: &RetainForwardRule) -> u8 {
    match r {
        RetainForwardRule::OnEverySubscribe => 0,
        RetainForwardRule::OnNewSubscribe => 1,
        RetainForwardRule::Never => 2,
    }
}

// ---- property getters (abstract -> field) and setters (field -> abstract)
fn g<X>(p: &Props, id: u8, f: impl Fn(&PV) -> X) -> Option<X> {
    p.iter().find(|(i, _)| *i == id).map(|(_, v)| f(v))
}
fn f8(v: &PV) -> u8 {
    match v {
        PV::Byte(x) => *x,
        _ => unreachable!("harness: type"),
    }
}
fn f16(v: &PV) -> u16 {
    match v {
        PV::U16(x) => *x,
        _ => unreachable!("harness: type"),
    }
}
fn f32_(v: &PV) -> u32 {
    match v {
        PV::U32(x) => *x,
        _ => unreachable!("harness: type"),
    }
}
fn fv(v: &PV) -> usize {
    match v {
        PV::Vbi(x) => *x as usize,
        _ => unreachable!("harness: type"),
    }
}
fn fs(v: &PV) -> Ms {
    match v {
        PV::Str(x) => ms(x),
        _ => unreachable!("harness: type"),
    }
}
fn fb(v: &PV) -> Bytes {
    match v {
        PV::Bin(x) => store::bytes(x),
        _ => unreachable!("harness: type"),
    }
}
fn up(p: &Props) -> Vec<(Ms, Ms)> {
    store::list(
        p.iter()
            .filter_map(|(_, v)| match v {
                PV::Pair(a, b) => Some((ms(a), ms(b))),
                _ => None,
            })
            .collect(),
    )
}
fn s8(o: &mut Props, id: u8, v: &Option<u8>) {
    if let Some(x) = v {
        o.push((id, PV::Byte(*x)))
    }
}
fn s16(o: &mut Props, id: u8, v: &Option<u16>) {
    if let Some(x) = v {
        o.push((id, PV::U16(*x)))
    }
}
fn s32(o: &mut Props, id: u8, v: &Option<u32>) {
    if let Some(x) = v {
        o.push((id, PV::U32(*x)))
    }
}
fn ss(o: &mut Props, id: u8, v: &Option<Ms>) {
    if let Some(x) = v {
        o.push((id, PV::Str(mb(x))))
    }
}
fn sb(o: &mut Props, id: u8, v: &Option<Bytes>) {
    if let Some(x) = v {
        o.push((id, PV::Bin(x.clone())))
    }
}
fn su(o: &mut Props, v: &[(Ms, Ms)]) {
    for (a, b) in v {
        o.push((0x26, PV::Pair(mb(a), mb(b))))
    }
}

fn connect_props(p: &Props) -> ConnectProperties {
    ConnectProperties {
        session_expiry_interval: g(p, 0x11, f32_),
        receive_maximum: g(p, 0x21, f16),
        max_packet_size: g(p, 0x27, f32_),
        topic_alias_max: g(p, 0x22, f16),
        request_response_info: g(p, 0x19, f8),
        request_problem_info: g(p, 0x17, f8),
        user_properties: up(p),
        authentication_method: g(p, 0x15, fs),
        authentication_data: g(p, 0x16, fb),
    }
}
fn connect_props_abs(p: &ConnectProperties) -> Props {
    let mut o = vec![];
    s32(&mut o, 0x11, &p.session_expiry_interval);
    s16(&mut o, 0x21, &p.receive_maximum);
    s32(&mut o, 0x27, &p.max_packet_size);
    s16(&mut o, 0x22, &p.topic_alias_max);
    s8(&mut o, 0x19, &p.request_response_info);
    s8(&mut o, 0x17, &p.request_problem_info);
    su(&mut o, &p.user_properties);
    ss(&mut o, 0x15, &p.authentication_method);
    sb(&mut o, 0x16, &p.authentication_data);
    o
}
fn will_props(p: &Props) -> LastWillProperties {
    LastWillProperties {
        delay_interval: g(p, 0x18, f32_),
        payload_format_indicator: g(p, 0x01, f8),
        message_expiry_interval: g(p, 0x02, f32_),
        content_type: g(p, 0x03, fs),
        response_topic: g(p, 0x08, fs),
        correlation_data: g(p, 0x09, fb),
        user_properties: up(p),
    }
}
fn will_props_abs(p: &LastWillProperties) -> Props {
    let mut o = vec![];
    s32(&mut o, 0x18, &p.delay_interval);
    s8(&mut o, 0x01, &p.payload_format_indicator);
    s32(&mut o, 0x02, &p.message_expiry_interval);
    ss(&mut o, 0x03, &p.content_type);
    ss(&mut o, 0x08, &p.response_topic);
    sb(&mut o, 0x09, &p.correlation_data);
    su(&mut o, &p.user_properties);
    o
}
fn connack_props(p: &Props) -> ConnAckProperties {
    ConnAckProperties {
        session_expiry_interval: g(p, 0x11, f32_),
        receive_max: g(p, 0x21, f16),
        max_qos: g(p, 0x24, f8),
        retain_available: g(p, 0x25, f8),
        max_packet_size: g(p, 0x27, f32_),
        assigned_client_identifier: g(p, 0x12, fs),
        topic_alias_max: g(p, 0x22, f16),
        reason_string: g(p, 0x1F, fs),
        user_properties: up(p),
        wildcard_subscription_available: g(p, 0x28, f8),
        subscription_identifiers_available: g(p, 0x29, f8),
        shared_subscription_available: g(p, 0x2A, f8),
        server_keep_alive: g(p, 0x13, f16),
        response_information: g(p, 0x1A, fs),
        server_reference: g(p, 0x1C, fs),
        authentication_method: g(p, 0x15, fs),
        authentication_data: g(p, 0x16, fb),
    }
}
fn connack_props_abs(p: &ConnAckProperties) -> Props {
    let mut o = vec![];
    s32(&mut o, 0x11, &p.session_expiry_interval);
    s16(&mut o, 0x21, &p.receive_max);
    s8(&mut o, 0x24, &p.max_qos);
    s8(&mut o, 0x25, &p.retain_available);
    s32(&mut o, 0x27, &p.max_packet_size);
    ss(&mut o, 0x12, &p.assigned_client_identifier);
    s16(&mut o, 0x22, &p.topic_alias_max);
    ss(&mut o, 0x1F, &p.reason_string);
    su(&mut o, &p.user_properties);
    s8(&mut o, 0x28, &p.wildcard_subscription_available);
    s8(&mut o, 0x29, &p.subscription_identifiers_available);
    s8(&mut o, 0x2A, &p.shared_subscription_available);
    s16(&mut o, 0x13, &p.server_keep_alive);
    ss(&mut o, 0x1A, &p.response_information);
    ss(&mut o, 0x1C, &p.server_reference);
    ss(&mut o, 0x15, &p.authentication_method);
    sb(&mut o, 0x16, &p.authentication_data);
    o
}
fn publish_props(p: &Props) -> PublishProperties {
    PublishProperties {
        payload_format_indicator: g(p, 0x01, f8),
        message_expiry_interval: g(p, 0x02, f32_),
        topic_alias: g(p, 0x23, f16),
        response_topic: g(p, 0x08, fs),
        correlation_data: g(p, 0x09, fb),
        user_properties: up(p),
        subscription_identifiers: store::list(p.iter().filter(|(i, _)| *i == 0x0B).map(|(_, v)| fv(v)).collect()),
        content_type: g(p, 0x03, fs),
    }
}
fn publish_props_abs(p: &PublishProperties) -> Props {
    let mut o = vec![];
    s8(&mut o, 0x01, &p.payload_format_indicator);
    s32(&mut o, 0x02, &p.message_expiry_interval);
    s16(&mut o, 0x23, &p.topic_alias);
    ss(&mut o, 0x08, &p.response_topic);
    sb(&mut o, 0x09, &p.correlation_data);
    su(&mut o, &p.user_properties);
    for x in &p.subscription_identifiers {
        o.push((0x0B, PV::Vbi(*x as u64)));
    }
    ss(&mut o, 0x03, &p.content_type);
    o
}
fn subscribe_props(p: &Props) -> SubscribeProperties {
    SubscribeProperties { id: g(p, 0x0B, fv), user_properties: up(p) }
}
fn subscribe_props_abs(p: &SubscribeProperties) -> Props {
    let mut o = vec![];
    if let Some(x) = p.id {
        o.push((0x0B, PV::Vbi(x as u64)));
    }
    su(&mut o, &p.user_properties);
    o
}
fn unsubscribe_props(p: &Props) -> UnsubscribeProperties {
    UnsubscribeProperties { user_properties: up(p) }
}
fn unsubscribe_props_abs(p: &UnsubscribeProperties) -> Props {
    let mut o = vec![];
    su(&mut o, &p.user_properties);
    o
}
fn disconnect_props(p: &Props) -> DisconnectProperties {
    DisconnectProperties {
        session_expiry_interval: g(p, 0x11, f32_),
        reason_string: g(p, 0x1F, fs),
        user_properties: up(p),
        server_reference: g(p, 0x1C, fs),
    }
}
fn disconnect_props_abs(p: &DisconnectProperties) -> Props {
    let mut o = vec![];
    s32(&mut o, 0x11, &p.session_expiry_interval);
    ss(&mut o, 0x1F, &p.reason_string);
    su(&mut o, &p.user_properties);
    ss(&mut o, 0x1C, &p.server_reference);
    o
}
macro_rules! reason_props {
    ($to:ident, $from:ident, $t:ident) => {
        fn $to(p: &Props) -> $t {
            $t { reason_string: g(p, 0x1F, fs), user_properties: up(p) }
        }
        fn $from(p: &$t) -> Props {
            let mut o = vec![];
            ss(&mut o, 0x1F, &p.reason_string);
            su(&mut o, &p.user_properties);
            o
        }
    };
}
reason_props!(puback_props, puback_props_abs, PubAckProperties);
reason_props!(pubrec_props, pubrec_props_abs, PubRecProperties);
reason_props!(pubrel_props, pubrel_props_abs, PubRelProperties);
reason_props!(pubcomp_props, pubcomp_props_abs, PubCompProperties);
reason_props!(suback_props, suback_props_abs, SubAckProperties);
reason_props!(unsuback_props, unsuback_props_abs, UnsubAckProperties);

fn filt(f: &Filt) -> Filter {
    Filter {
        path: ms(&f.path),
        qos: q(f.qos),
        nolocal: f.nolocal,
        preserve_retain: f.rap,
        retain_forward_rule: rh_to(f.rh),
    }
}
fn filt_abs(f: &Filter) -> Filt {
    Filt {
        path: mb(&f.path),
        qos: qn(f.qos),
        nolocal: f.nolocal,
        rap: f.preserve_retain,
        rh: rh_from(&f.retain_forward_rule),
    }
}

fn will(w: &Will) -> LastWill {
    LastWill {
        topic: store::bytes(&w.topic),
        message: store::bytes(&w.message),
        qos: q(w.qos),
        retain: w.retain,
        properties: w.props.as_ref().map(will_props),
    }
}
fn will_abs(w: &LastWill) -> Will {
    Will {
        qos: qn(w.qos),
        retain: w.retain,
        topic: w.topic.clone(),
        message: w.message.clone(),
        props: w.properties.as_ref().map(will_props_abs),
    }
}

fn build(a: &Abs) -> Packet {
    match a {
        Abs::Connect { clean, keep_alive, props, client_id, will, login } => Packet::Connect(
            Connect {
                keep_alive: *keep_alive,
                client_id: ms(client_id),
                clean_start: *clean,
                properties: props.as_ref().map(connect_props),
            },
            will.as_ref().map(self::will),
            login.as_ref().map(|(u, p)| Login { username: ms(u), password: ms(p) }),
        ),
        Abs::ConnAck { sp, code, props } => Packet::ConnAck(ConnAck {
            session_present: *sp,
            code: connack_to(*code),
            properties: props.as_ref().map(connack_props),
        }),
        Abs::Publish { dup, qos, retain, topic, pkid, props, payload } => Packet::Publish(Publish {
            dup: *dup,
            qos: q(*qos),
            retain: *retain,
            topic: ms(topic),
            pkid: *pkid,
            payload: store::bytes(payload),
            properties: props.as_ref().map(publish_props),
        }),
        Abs::Ack { typ, pkid, code, props } => match typ {
            4 => Packet::PubAck(PubAck {
                pkid: *pkid,
                reason: puback_to(*code),
                properties: props.as_ref().map(puback_props),
            }),
            5 => Packet::PubRec(PubRec {
                pkid: *pkid,
                reason: pubrec_to(*code),
                properties: props.as_ref().map(pubrec_props),
            }),
            6 => Packet::PubRel(PubRel {
                pkid: *pkid,
                reason: pubrel_to(*code),
                properties: props.as_ref().map(pubrel_props),
            }),
            _ => Packet::PubComp(PubComp {
                pkid: *pkid,
                reason: pubcomp_to(*code),
                properties: props.as_ref().map(pubcomp_props),
            }),
        },
        Abs::Subscribe { pkid, props, filters } => Packet::Subscribe(Subscribe {
            pkid: *pkid,
            filters: store::list(filters.iter().map(filt).collect()),
            properties: props.as_ref().map(subscribe_props),
        }),
        Abs::SubAck { pkid, props, codes } => Packet::SubAck(SubAck {
            pkid: *pkid,
            return_codes: store::list(codes.iter().map(|c| suback_to(*c)).collect()),
            properties: props.as_ref().map(suback_props),
        }),
        Abs::Unsubscribe { pkid, props, filters } => Packet::Unsubscribe(Unsubscribe {
            pkid: *pkid,
            filters: store::list(filters.iter().map(ms).collect()),
            properties: props.as_ref().map(unsubscribe_props),
        }),
        Abs::UnsubAck { pkid, props, codes } => Packet::UnsubAck(UnsubAck {
            pkid: *pkid,
            reasons: store::list(codes.iter().map(|c| unsuback_to(*c)).collect()),
            properties: props.as_ref().map(unsuback_props),
        }),
        Abs::PingReq => Packet::PingReq(PingReq),
        Abs::PingResp => Packet::PingResp(PingResp),
        Abs::Disconnect { code, props } => Packet::Disconnect(Disconnect {
            reason_code: disc_to(*code),
            properties: props.as_ref().map(disconnect_props),
        }),
    }
}

fn to_abs(p: &Packet) -> Abs {
    macro_rules! ack {
        ($typ:expr, $a:expr, $code:ident, $props:ident) => {
            Abs::Ack {
                typ: $typ,
                pkid: $a.pkid,
                code: $code($a.reason),
                props: $a.properties.as_ref().map($props),
            }
        };
    }
    match p {
        Packet::Connect(c, w, l) => Abs::Connect {
            clean: c.clean_start,
            keep_alive: c.keep_alive,
            props: c.properties.as_ref().map(connect_props_abs),
            client_id: mb(&c.client_id),
            will: w.as_ref().map(will_abs),
            login: l.as_ref().map(|l| (mb(&l.username), mb(&l.password))),
        },
        Packet::ConnAck(c) => Abs::ConnAck {
            sp: c.session_present,
            code: connack_from(c.code),
            props: c.properties.as_ref().map(connack_props_abs),
        },
        Packet::Publish(c) => Abs::Publish {
            dup: c.dup,
            qos: qn(c.qos),
            retain: c.retain,
            topic: mb(&c.topic),
            pkid: c.pkid,
            props: c.properties.as_ref().map(publish_props_abs),
            payload: c.payload.clone(),
        },
        Packet::PubAck(c) => ack!(4, c, puback_from, puback_props_abs),
        Packet::PubRec(c) => ack!(5, c, pubrec_from, pubrec_props_abs),
        Packet::PubRel(c) => ack!(6, c, pubrel_from, pubrel_props_abs),
        Packet::PubComp(c) => ack!(7, c, pubcomp_from, pubcomp_props_abs),
        Packet::Subscribe(c) => Abs::Subscribe {
            pkid: c.pkid,
            props: c.properties.as_ref().map(subscribe_props_abs),
            filters: c.filters.iter().map(filt_abs).collect(),
        },
        Packet::SubAck(c) => Abs::SubAck {
            pkid: c.pkid,
            props: c.properties.as_ref().map(suback_props_abs),
            codes: c.return_codes.iter().map(|c| suback_from(*c)).collect(),
        },
        Packet::Unsubscribe(c) => Abs::Unsubscribe {
            pkid: c.pkid,
            props: c.properties.as_ref().map(unsubscribe_props_abs),
            filters: c.filters.iter().map(mb).collect(),
        },
        Packet::UnsubAck(c) => Abs::UnsubAck {
            pkid: c.pkid,
            props: c.properties.as_ref().map(unsuback_props_abs),
            codes: c.reasons.iter().map(|c| unsuback_from(*c)).collect(),
        },
        Packet::PingReq(_) => Abs::PingReq,
        Packet::PingResp(_) => Abs::PingResp,
        Packet::Disconnect(c) => Abs::Disconnect {
            code: disc_from(c.reason_code),
            props: c.properties.as_ref().map(disconnect_props_abs),
        },
    }
}

impl Pkt for P {
    fn abs(&self) -> Abs {
        to_abs(&self.0)
    }
    fn write(&self, b: &mut BytesMut) -> Result<usize, Ev> {
        self.0.write(b).map_err(|e| ev(&e))
    }
    fn write_kind(&self, b: &mut BytesMut) -> Result<usize, Ev> {
        match &self.0 {
            Packet::Connect(c, w, l) => c.write(w, l, b),
            Packet::ConnAck(c) => c.write(b),
            Packet::Publish(c) => c.write(b),
            Packet::PubAck(c) => c.write(b),
            Packet::PubRec(c) => c.write(b),
            Packet::PubRel(c) => c.write(b),
            Packet::PubComp(c) => c.write(b),
            Packet::Subscribe(c) => c.write(b),
            Packet::SubAck(c) => c.write(b),
            Packet::Unsubscribe(c) => c.write(b),
            Packet::UnsubAck(c) => c.write(b),
            Packet::PingReq(_) => PingReq::write(b),
            Packet::PingResp(_) => PingResp::write(b),
            Packet::Disconnect(c) => c.write(b),
        }
        .map_err(|e| ev(&e))
    }
    fn size(&self) -> Option<usize> {
        Some(match &self.0 {
            Packet::ConnAck(c) => c.size(),
            Packet::Publish(c) => c.size(),
            Packet::PubAck(c) => c.size(),
            Packet::PubRec(c) => c.size(),
            Packet::PubRel(c) => c.size(),
            Packet::PubComp(c) => c.size(),
            Packet::Subscribe(c) => c.size(),
            Packet::SubAck(c) => c.size(),
            Packet::Unsubscribe(c) => c.size(),
            Packet::UnsubAck(c) => c.size(),
            Packet::Disconnect(c) => c.size(),
            Packet::Connect(..) | Packet::PingReq(_) | Packet::PingResp(_) => return None,
        })
    }
    fn same(&self, o: &dyn Pkt) -> bool {
        match o.any().downcast_ref::<P>() {
            Some(p) => p.0 == self.0,
            None => false,
        }
    }
    fn dup(&self) -> Box<dyn Pkt> {
        Box::new(P(self.0.clone()))
    }
    fn print(&self, w: &mut dyn std::fmt::Write, pretty: bool) -> bool {
        if pretty { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) }.is_ok()
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

impl Sut for It {
    fn name(&self) -> &'static str {
        NAME
    }
    fn utf8(&self) -> bool {
        UTF8
    }
    fn read(&self, b: &mut BytesMut, max: Option<usize>) -> ROut {
        rout(Packet::read(b, max))
    }
    fn check(&self, s: &[u8], max: Option<usize>) -> COut {
        match check(s.iter(), max) {
            Ok(h) => COut::Frame { total: h.frame_length(), typ: h.packet_type().ok().map(ptype) },
            Err(Error::InsufficientBytes(n)) => COut::Need(n),
            Err(Error::PayloadSizeLimitExceeded { pkt_size, max }) => COut::Big { pkt: pkt_size, max },
            Err(e) => COut::Err(ev(&e)),
        }
    }
    fn read_kind(&self, frame: Bytes) -> Option<ROut> {
        let h = check(frame.iter(), None).ok()?;
        Some(rout(match h.packet_type().ok()? {
            PacketType::Connect => Connect::read(h, frame).map(|(c, w, l)| Packet::Connect(c, w, l)),
            PacketType::ConnAck => ConnAck::read(h, frame).map(Packet::ConnAck),
            PacketType::Publish => Publish::read(h, frame).map(Packet::Publish),
            PacketType::PubAck => PubAck::read(h, frame).map(Packet::PubAck),
            PacketType::PubRec => PubRec::read(h, frame).map(Packet::PubRec),
            PacketType::PubRel => PubRel::read(h, frame).map(Packet::PubRel),
            PacketType::PubComp => PubComp::read(h, frame).map(Packet::PubComp),
            PacketType::Subscribe => Subscribe::read(h, frame).map(Packet::Subscribe),
            PacketType::SubAck => SubAck::read(h, frame).map(Packet::SubAck),
            PacketType::Unsubscribe => Unsubscribe::read(h, frame).map(Packet::Unsubscribe),
            PacketType::UnsubAck => UnsubAck::read(h, frame).map(Packet::UnsubAck),
            PacketType::Disconnect => Disconnect::read(h, frame).map(Packet::Disconnect),
            PacketType::PingReq | PacketType::PingResp => return None,
        }))
    }
    fn build(&self, a: &Abs) -> Box<dyn Pkt> {
        Box::new(P(build(a)))
    }
    fn construct(&self, c: &Ctor) -> Box<dyn Pkt> {
        let bare = |props, login| {
            Packet::Connect(
                Connect { keep_alive: 0, client_id: mqtt_string_new(""), clean_start: false, properties: props },
                None,
                login,
            )
        };
        Box::new(P(match c {
            Ctor::Publish { topic, qos, payload, props } => Packet::Publish(Publish::new(
                ms(topic),
                q(*qos),
                store::bytes(payload),
                props.as_ref().map(publish_props),
            )),
            Ctor::Subscribe { path, qos, props } => Packet::Subscribe(Subscribe::new(
                Filter::new(ms(path), q(*qos)),
                props.as_ref().map(subscribe_props),
            )),
            Ctor::SubscribeFilt { f, props } => {
                Packet::Subscribe(Subscribe::new(filt(f), props.as_ref().map(subscribe_props)))
            }
            Ctor::SubscribeMany { filters, props } => {
                let mut all = filters.iter().map(filt);
                let props = props.as_ref().map(subscribe_props);
                Packet::Subscribe(match store::list_as() {
                    0 => Subscribe::new_many(all, props),
                    1 => Subscribe::new_many(all.collect::<Vec<_>>(), props),
                    // says nothing about how many there are
                    2 => Subscribe::new_many(std::iter::from_fn(|| all.next()), props),
                    _ => Subscribe::new_many(all.filter(|_| true), props),
                })
            }
            Ctor::Unsubscribe { path, props } => Packet::Unsubscribe(Unsubscribe::new(
                ms(path),
                props.as_ref().map(unsubscribe_props),
            )),
            Ctor::Ack { typ, pkid, props } => match typ {
                4 => Packet::PubAck(PubAck::new(*pkid, props.as_ref().map(puback_props))),
                5 => Packet::PubRec(PubRec::new(*pkid, props.as_ref().map(pubrec_props))),
                6 => Packet::PubRel(PubRel::new(*pkid, props.as_ref().map(pubrel_props))),
                _ => Packet::PubComp(PubComp::new(*pkid, props.as_ref().map(pubcomp_props))),
            },
            Ctor::Disconnect { code } => Packet::Disconnect(Disconnect::new(disc_to(*code))),
            Ctor::Login { user, pass } => bare(None, Some(Login::new(ms(user), ms(pass)))),
            Ctor::ConnectProps { default } => bare(
                Some(if *default { ConnectProperties::default() } else { ConnectProperties::new() }),
                None,
            ),
            Ctor::ConnAckProps { default } => Packet::ConnAck(ConnAck {
                session_present: false,
                code: ConnectReturnCode::Success,
                properties: Some(if *default {
                    ConnAckProperties::default()
                } else {
                    ConnAckProperties::new()
                }),
            }),
            Ctor::PublishPropsDefault => Packet::Publish(Publish {
                properties: Some(PublishProperties::default()),
                ..Publish::default()
            }),
            Ctor::PublishDefault => Packet::Publish(Publish::default()),
            Ctor::SubscribeDefault => Packet::Subscribe(Subscribe::default()),
            Ctor::FilterDefault => {
                Packet::Subscribe(Subscribe::new_many(vec![Filter::default()], None))
            }
            Ctor::UnsubscribeDefault => Packet::Unsubscribe(Unsubscribe::default()),
        }))
    }
    fn header(&self, byte1: u8, len_len: usize, len: usize) -> (Option<u8>, usize) {
        let h = FixedHeader::new(byte1, len_len, len);
        (h.packet_type().ok().map(ptype), h.frame_length())
    }
    fn qos(&self, n: u8) -> Option<u8> {
        qos(n).map(qn)
    }
    fn disconnect_code(&self, n: u8) -> Option<u8> {
        DisconnectReasonCode::try_from(n).ok().map(disc_from)
    }
    fn disconnect_code_as_u8(&self, n: u8) -> u8 {
        disc_to(n) as u8
    }
    fn mqtt_string(&self, s: &'static str) -> B {
        mb(&mqtt_string_new(s))
    }
    fn part_write(&self, p: &Part, b: &mut BytesMut) -> Option<Result<u8, Ev>> {
        let r = match p {
            Part::Props(_, None) | Part::Props(Sec::Disconnect, _) | Part::Will(None) | Part::Login(None) => return None,
            Part::Props(s, Some(p)) => match s {
                Sec::Connect => connect_props(p).write(b),
                Sec::Will => will_props(p).write(b),
                Sec::ConnAck => connack_props(p).write(b),
                Sec::Publish => publish_props(p).write(b),
                Sec::PubAck => puback_props(p).write(b),
                Sec::PubRec => pubrec_props(p).write(b),
                Sec::PubRel => pubrel_props(p).write(b),
                Sec::PubComp => pubcomp_props(p).write(b),
                Sec::Subscribe => subscribe_props(p).write(b),
                Sec::SubAck => suback_props(p).write(b),
                Sec::Unsubscribe => unsubscribe_props(p).write(b),
                Sec::UnsubAck => unsuback_props(p).write(b),
                Sec::Disconnect => unreachable!("harness"),
            }
            .map(|()| 0),
            Part::Will(Some(w)) => will(w).write(b),
            Part::Login(Some((u, p))) => Login { username: ms(u), password: ms(p) }.write(b),
            Part::Filters(fs) => fs.iter().try_for_each(|f| filt(f).write(b)).map(|()| 0),
        };
        Some(r.map_err(|e| ev(&e)))
    }
    fn part_read(&self, w: Which, b: &mut Bytes) -> Result<Part, Ev> {
        macro_rules! section {
            ($s:expr, $r:expr, $abs:ident) => {
                $r.map(|p| Part::Props($s, p.as_ref().map($abs)))
            };
        }
        match w {
            Which::Props(s) => match s {
                Sec::Connect => section!(s, ConnectProperties::read(b), connect_props_abs),
                Sec::Will => section!(s, LastWillProperties::read(b), will_props_abs),
                Sec::ConnAck => section!(s, ConnAckProperties::read(b), connack_props_abs),
                Sec::Publish => section!(s, PublishProperties::read(b), publish_props_abs),
                Sec::PubAck => section!(s, PubAckProperties::read(b), puback_props_abs),
                Sec::PubRec => section!(s, PubRecProperties::read(b), pubrec_props_abs),
                Sec::PubRel => section!(s, PubRelProperties::read(b), pubrel_props_abs),
                Sec::PubComp => section!(s, PubCompProperties::read(b), pubcomp_props_abs),
                Sec::Subscribe => section!(s, SubscribeProperties::read(b), subscribe_props_abs),
                Sec::SubAck => section!(s, SubAckProperties::read(b), suback_props_abs),
                Sec::Unsubscribe => section!(s, UnsubscribeProperties::read(b), unsubscribe_props_abs),
                Sec::UnsubAck => section!(s, UnsubAckProperties::read(b), unsuback_props_abs),
                Sec::Disconnect => section!(s, DisconnectProperties::extract(b), disconnect_props_abs),
            },
            Which::Will(f) => LastWill::read(f, b).map(|w| Part::Will(w.as_ref().map(will_abs))),
            Which::Login(f) => {
                Login::read(f, b).map(|l| Part::Login(l.as_ref().map(|l| (mb(&l.username), mb(&l.password)))))
            }
            Which::Filters => Filter::read(b).map(|f| Part::Filters(f.iter().map(filt_abs).collect())),
        }
        .map_err(|e| ev(&e))
    }
    fn error_of_read(&self, b: &[u8]) -> Option<Said> {
        Packet::read(&mut BytesMut::from(b), None).err().map(|e| said(&e))
    }
    fn error_of_write(&self, p: &dyn Pkt, b: &mut BytesMut) -> Option<Said> {
        p.any().downcast_ref::<P>().expect("harness: packet").0.write(b).err().map(|e| said(&e))
    }
    fn auto_traits(&self) -> Vec<(&'static str, bool, bool)> {
        // an inherent constant goes before that of a trait, but only where its bounds hold
        struct Probe<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait Lacks {
            const YES: bool = false;
        }
        struct ProbeSync<T>(std::marker::PhantomData<T>);
        impl<T> Lacks for Probe<T> {}
        impl<T> Lacks for ProbeSync<T> {}
        #[allow(dead_code)]
        impl<T: Send> Probe<T> {
            const YES: bool = true;
        }
        #[allow(dead_code)]
        impl<T: Sync> ProbeSync<T> {
            const YES: bool = true;
        }
        macro_rules! all {
            ($($t:ident)*) => { vec![$((stringify!($t), Probe::<$t>::YES, ProbeSync::<$t>::YES)),*] };
        }
        all!(Packet PacketType FixedHeader QoS Error Connect ConnectProperties LastWill LastWillProperties Login
            ConnAck ConnAckProperties ConnectReturnCode Publish PublishProperties PubAck PubAckProperties PubAckReason
            PubRec PubRecProperties PubRecReason PubRel PubRelProperties PubRelReason PubComp PubCompProperties
            PubCompReason Subscribe SubscribeProperties Filter RetainForwardRule SubAck SubAckProperties
            SubscribeReasonCode Unsubscribe UnsubscribeProperties UnsubAck UnsubAckProperties UnsubAckReason
            PingReq PingResp Disconnect DisconnectProperties DisconnectReasonCode)
    }
    fn read_error(&self, b: &[u8], max: Option<usize>) -> String {
        let mut b = BytesMut::from(b);
        match Packet::read(&mut b, max) {
            Ok(p) => format!("Ok({p:?})"),
            Err(e) => format!("Err({e:?})"),
        }
    }
    fn error_text(&self, b: &[u8], max: Option<usize>) -> Option<ErrText> {
        let mut b = BytesMut::from(b);
        Packet::read(&mut b, max).err().map(|e| err_text(&e))
    }
    fn write_error_text(&self, p: &dyn Pkt) -> Option<ErrText> {
        let mut b = BytesMut::new();
        p.any().downcast_ref::<P>()?.0.write(&mut b).err().map(|e| err_text(&e))
    }
    fn qos_order(&self, a: u8, b: u8) -> Option<std::cmp::Ordering> {
        qos(a)?.partial_cmp(&qos(b)?)
    }
}
