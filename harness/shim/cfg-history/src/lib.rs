//! Stand-in for `cfg-history` (not available offline).
pub mod earley {
    use cfg_symbol::Symbol;

    macro_rules! ser {
        ($($it:item)*) => { $(
            #[derive(serde::Serialize, serde::Deserialize)]
            #[derive(miniserde::Serialize, miniserde::Deserialize)]
            #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
            $it
        )* };
    }
    ser! {
        pub struct EventId { pub id: u32 }
        pub struct MinimalDistance { pub distance: u32 }
        pub struct ExternalOrigin { pub id: u32 }
        pub struct ExternalDottedRule { pub id: u32, pub pos: u32 }
    }
    pub const NULL: u32 = !0;
    impl EventId {
        pub fn null() -> Self { EventId { id: NULL } }
        pub fn is_null(&self) -> bool { self.id == NULL }
    }
    impl MinimalDistance {
        pub fn null() -> Self { MinimalDistance { distance: NULL } }
        pub fn is_null(&self) -> bool { self.distance == NULL }
    }
    impl ExternalOrigin {
        pub fn null() -> Self { ExternalOrigin { id: NULL } }
        pub fn is_null(&self) -> bool { self.id == NULL }
    }
    impl ExternalDottedRule {
        pub fn null() -> Self { ExternalDottedRule { id: NULL, pos: NULL } }
        pub fn is_null(&self) -> bool { self.id == NULL }
    }
    impl Default for EventId { fn default() -> Self { Self::null() } }
    impl Default for MinimalDistance { fn default() -> Self { Self::null() } }
    impl Default for ExternalOrigin { fn default() -> Self { Self::null() } }
    impl Default for ExternalDottedRule { fn default() -> Self { Self::null() } }

    pub type EventAndDistance = (EventId, MinimalDistance);
    /// `(symbol, true)`: the eliminated nulling symbol stood on the right.
    pub type NullingEliminated = Option<(Symbol, bool)>;

    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct RuleDot {
        pub event: EventId,
        pub distance: MinimalDistance,
        pub trace: ExternalDottedRule,
    }
    impl RuleDot {
        pub fn null() -> Self {
            RuleDot {
                event: EventId::null(),
                distance: MinimalDistance::null(),
                trace: ExternalDottedRule::null(),
            }
        }
        pub fn event_and_distance(&self) -> EventAndDistance {
            (self.event, self.distance)
        }
        pub fn trace(&self) -> ExternalDottedRule {
            self.trace
        }
    }
}
