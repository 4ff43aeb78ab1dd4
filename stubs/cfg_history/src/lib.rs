//! Stand-in for the `cfg-history` crate.
pub mod earley {
    use cfg_symbol::Symbol;
    use miniserde::{Deserialize, Serialize};
    macro_rules! d {
        ($($i:item)*) => { $(#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, serde::Serialize, serde::Deserialize)] $i)* };
    }
    d! {
        pub struct EventId { pub id: u32 }
        pub struct MinimalDistance { pub distance: u32 }
        pub struct ExternalDottedRule { pub id: u32, pub pos: u32 }
        pub struct ExternalOrigin { pub id: u32 }
    }
    impl EventId {
        pub const fn null() -> Self {
            EventId { id: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.id == !0
        }
    }
    impl MinimalDistance {
        pub const fn null() -> Self {
            MinimalDistance { distance: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.distance == !0
        }
    }
    impl ExternalDottedRule {
        pub const fn null() -> Self {
            ExternalDottedRule { id: !0, pos: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.id == !0
        }
    }
    impl ExternalOrigin {
        pub const fn null() -> Self {
            ExternalOrigin { id: !0 }
        }
        pub fn is_null(&self) -> bool {
            self.id == !0
        }
    }
    pub type EventAndDistance = (EventId, MinimalDistance);
    /// `true`: the right symbol was eliminated.
    pub type NullingEliminated = Option<(Symbol, bool)>;
}
