//! Stand-in for pczarn/cfg's `cfg-history` crate (not available offline): rule identities and trace points.

pub mod earley {
    use cfg_symbol::Symbol;

    macro_rules! record {
        ($(#[$m:meta])* pub struct $n:ident { $(pub $f:ident : $t:ty),* $(,)? }) => {
            $(#[$m])*
            #[derive(serde::Serialize, serde::Deserialize, miniserde::Serialize, miniserde::Deserialize)]
            #[derive(Copy, Clone, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
            pub struct $n { $(pub $f: $t),* }
        };
    }

    record! { pub struct ExternalOrigin { pub id: u32 } }
    record! { pub struct EventId { pub id: u32 } }
    record! { pub struct MinimalDistance { pub distance: u32 } }
    record! { pub struct ExternalDottedRule { pub id: u32, pub pos: u32 } }

    pub type EventAndDistance = (EventId, MinimalDistance);
    /// The symbol that was eliminated from a rule; true if it was the right one.
    pub type NullingEliminated = Option<(Symbol, bool)>;

    const NULL: u32 = !0;

    impl ExternalOrigin {
        pub fn null() -> Self {
            ExternalOrigin { id: NULL }
        }
        pub fn is_null(&self) -> bool {
            self.id == NULL
        }
    }
    impl EventId {
        pub fn null() -> Self {
            EventId { id: NULL }
        }
        pub fn is_null(&self) -> bool {
            self.id == NULL
        }
    }
    impl MinimalDistance {
        pub fn null() -> Self {
            MinimalDistance { distance: NULL }
        }
        pub fn is_null(&self) -> bool {
            self.distance == NULL
        }
    }
    impl ExternalDottedRule {
        pub fn null() -> Self {
            ExternalDottedRule { id: NULL, pos: NULL }
        }
        pub fn is_null(&self) -> bool {
            self.id == NULL
        }
    }
    impl Default for ExternalOrigin {
        fn default() -> Self {
            Self::null()
        }
    }
    impl Default for EventId {
        fn default() -> Self {
            Self::null()
        }
    }
    impl Default for MinimalDistance {
        fn default() -> Self {
            Self::null()
        }
    }
    impl Default for ExternalDottedRule {
        fn default() -> Self {
            Self::null()
        }
    }

    /// What is known about one dot position of a rule.
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    pub struct RuleDot {
        pub event: EventId,
        pub distance: MinimalDistance,
        pub trace: ExternalDottedRule,
    }

    impl RuleDot {
        pub fn event_and_distance(&self) -> EventAndDistance {
            (self.event, self.distance)
        }
        pub fn trace(&self) -> ExternalDottedRule {
            self.trace
        }
    }
}
