//! Stand-in for lightyear_prediction (see Cargo.toml): the resources lightyear_inputs reads and
//! writes, and the tracker reset that the real rollback plugin runs after its check.
use bevy_ecs::prelude::*;
use bevy_platform::sync::atomic::{AtomicBool, Ordering};
use lightyear_core::prelude::Tick;
use lightyear_core::tick::AtomicTick;
use lightyear_sync::prelude::InputTimelineConfig;

#[derive(Component, Debug, Default)]
pub struct PredictionDisable {
    pub tick: Tick,
}

#[derive(SystemSet, Debug, Hash, PartialEq, Eq, Clone, Copy)]
pub enum RollbackSystems {
    Check,
    RemoveDisable,
    Prepare,
    Rollback,
    EndRollback,
}

#[derive(Debug, Clone, Copy, Default)]
pub enum RollbackMode {
    Always,
    #[default]
    Check,
    Disabled,
}

#[derive(Debug, Clone, Copy)]
pub struct RollbackPolicy {
    pub state: RollbackMode,
    pub input: RollbackMode,
    pub max_rollback_ticks: u16,
}

impl Default for RollbackPolicy {
    fn default() -> Self {
        Self { state: RollbackMode::Check, input: RollbackMode::Check, max_rollback_ticks: 20 }
    }
}

impl RollbackPolicy {
    pub fn effective_max_rollback_ticks(&self, input_config: &InputTimelineConfig) -> u16 {
        let maximum = input_config.maximum_predicted_ticks();
        if maximum == 0 { self.max_rollback_ticks } else { self.max_rollback_ticks.min(maximum) }
    }
}

#[derive(Debug)]
pub struct EarliestMismatchedInput {
    pub tick: AtomicTick,
    pub has_mismatches: AtomicBool,
}

impl Default for EarliestMismatchedInput {
    fn default() -> Self {
        Self { tick: AtomicTick::new_max(), has_mismatches: AtomicBool::new(false) }
    }
}

impl EarliestMismatchedInput {
    pub fn has_mismatches(&self) -> bool {
        self.has_mismatches.load(Ordering::Relaxed)
    }
}

#[derive(Resource, Debug, Default)]
pub struct PredictionManager {
    pub rollback_policy: RollbackPolicy,
    pub earliest_mismatch_input: EarliestMismatchedInput,
}

#[derive(Resource, Debug)]
pub struct LastConfirmedInput {
    pub tick: AtomicTick,
    pub previous_frame_tick: Tick,
    pub received_any_messages: AtomicBool,
    pub received_for_all_clients: bool,
}

impl Default for LastConfirmedInput {
    fn default() -> Self {
        Self {
            tick: AtomicTick::new_max(),
            previous_frame_tick: Tick(u32::MAX),
            received_any_messages: AtomicBool::new(false),
            received_for_all_clients: false,
        }
    }
}

impl LastConfirmedInput {
    pub fn received_input(&self) -> bool {
        self.received_any_messages.load(Ordering::Relaxed)
    }
    pub fn get(&self) -> Option<Tick> {
        Some(self.tick.get()).filter(|t| *t != Tick(u32::MAX))
    }
    pub fn previous_frame(&self) -> Option<Tick> {
        Some(self.previous_frame_tick).filter(|t| *t != Tick(u32::MAX))
    }
    pub fn finalize_frame(&mut self) {
        self.previous_frame_tick = self.tick.get();
    }
}

/// What the real `reset_input_rollback_tracker` does after the rollback check of each frame.
pub fn reset_trackers(last: &mut LastConfirmedInput, manager: Option<&PredictionManager>) {
    last.tick.0.store(u32::MAX, Ordering::Relaxed);
    last.received_any_messages.store(false, Ordering::Relaxed);
    last.received_for_all_clients = true;
    if let Some(m) = manager {
        m.earliest_mismatch_input.tick.0.store(u32::MAX, Ordering::Relaxed);
        m.earliest_mismatch_input.has_mismatches.store(false, Ordering::Relaxed);
    }
}

pub mod prelude {
    pub use crate::{
        LastConfirmedInput, PredictionDisable, PredictionManager, RollbackMode, RollbackPolicy,
        RollbackSystems,
    };
}
