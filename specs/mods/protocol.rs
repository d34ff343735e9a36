//@module protocol src/model/protocol.rs
use crate::schema::*;
//@type Protocol
//@type Message
