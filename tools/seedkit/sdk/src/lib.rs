//! Stand-in for `marine-rs-sdk` 0.10.2: same surface, but the host is the simulator.
//! Only the host side is replaced; everything behind it is the real service code.

extern crate self as marine_rs_sdk;

pub use marine_macro_sim::fce;
pub use marine_macro_sim::marine;

use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

#[doc(hidden)]
pub mod __sim {
    pub use serde;
    pub use serde_json;
}

#[derive(Clone, Debug, Default, Eq, PartialEq, Hash, Serialize, Deserialize)]
pub struct SecurityTetraplet {
    pub peer_pk: String,
    pub service_id: String,
    pub function_name: String,
    pub json_path: String,
}

impl SecurityTetraplet {
    pub fn new(
        peer_pk: impl Into<String>,
        service_id: impl Into<String>,
        function_name: impl Into<String>,
        json_path: impl Into<String>,
    ) -> Self {
        Self {
            peer_pk: peer_pk.into(),
            service_id: service_id.into(),
            function_name: function_name.into(),
            json_path: json_path.into(),
        }
    }
    pub fn literal_tetraplet(init_peer_id: impl Into<String>) -> Self {
        Self {
            peer_pk: init_peer_id.into(),
            ..Default::default()
        }
    }
    pub fn add_lambda(&mut self, json_path: &str) {
        self.json_path.push_str(json_path)
    }
}

impl std::fmt::Display for SecurityTetraplet {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "peer_pk: {}, service_id: {}, function_name: {}, json_path: {}",
            self.peer_pk, self.service_id, self.function_name, self.json_path
        )
    }
}

#[derive(Clone, PartialEq, Default, Eq, Debug, Serialize, Deserialize)]
pub struct CallParameters {
    pub init_peer_id: String,
    pub service_id: String,
    pub service_creator_peer_id: String,
    pub host_id: String,
    pub particle_id: String,
    pub tetraplets: Vec<Vec<SecurityTetraplet>>,
}

thread_local!(static CALL_PARAMETERS: RefCell<CallParameters> = RefCell::new(CallParameters::default()));

/// Set by the simulator before each call.
#[doc(hidden)]
pub fn __sim_set_call_parameters(cp: CallParameters) {
    CALL_PARAMETERS.with(|c| *c.borrow_mut() = cp)
}

pub fn get_call_parameters() -> CallParameters {
    CALL_PARAMETERS.with(|c| c.borrow().clone())
}

pub type TargetMap = HashMap<&'static str, i32>;

/// Logging goes nowhere: log output is not an observable of any property.
#[derive(Default)]
pub struct WasmLoggerBuilder {}

impl WasmLoggerBuilder {
    pub fn new() -> Self {
        Self {}
    }
    pub fn with_log_level(self, _level: log::LevelFilter) -> Self {
        self
    }
    pub fn with_target_map(self, _map: TargetMap) -> Self {
        self
    }
    pub fn filter(self, _module_name: impl Into<String>, _level: log::LevelFilter) -> Self {
        self
    }
    pub fn build(self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}

#[macro_export]
macro_rules! module_manifest {
    ($($t:tt)*) => {};
}
