//! Bounded model checking of an MQTT 5 codec: reference model, exhaustive generators, oracles, explorer.
#![allow(clippy::type_complexity, clippy::too_many_arguments, clippy::new_without_default)]
pub mod abs;
pub mod after;
pub mod conc;
pub mod engine;
pub mod gen_frame;
pub mod gen_val;
pub mod hist;
pub mod mem;
pub mod model;
pub mod oracle;
pub mod parts;
pub mod print;
pub mod props;
pub mod sched;
pub mod store;
pub mod sut;
pub mod work;
