//! Stand-in for lightyear_replication (see Cargo.toml): the components lightyear_inputs reads.
use bevy_ecs::prelude::*;

pub mod control {
    use super::*;
    #[derive(Component, Debug)]
    #[relationship_target(relationship = ControlledBy)]
    pub struct ControlledByRemote(Vec<Entity>);

    #[derive(Component, Clone, Copy, PartialEq, Debug)]
    #[component(immutable)]
    #[relationship(relationship_target = ControlledByRemote)]
    pub struct ControlledBy {
        #[relationship]
        pub owner: Entity,
        pub lifetime: Lifetime,
    }

    #[derive(Clone, Copy, PartialEq, Debug, Default)]
    pub enum Lifetime {
        #[default]
        SessionBased,
        Persistent,
    }
}

#[derive(Component, Debug, Clone, Default)]
pub struct PreSpawned {
    pub hash: Option<u64>,
    pub user_salt: Option<u64>,
    pub client: Option<Entity>,
    pub receiver: Option<Entity>,
}

impl PreSpawned {
    pub fn new(hash: u64) -> Self {
        Self { hash: Some(hash), ..Default::default() }
    }
    pub fn for_receiver(mut self, receiver: Entity) -> Self {
        self.receiver = Some(receiver);
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct RoomId(pub u16);

#[derive(Component, Debug, Default)]
#[component(immutable)]
pub struct Rooms(pub Vec<RoomId>);

impl Rooms {
    pub fn contains_room(&self, room: RoomId) -> bool {
        self.0.contains(&room)
    }
}

pub mod prelude {
    pub use crate::control::{ControlledBy, ControlledByRemote, Lifetime};
    pub use crate::{PreSpawned, RoomId, Rooms};
}
