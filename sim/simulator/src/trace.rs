//! A run as data: a linear list of concrete events. Replay executes exactly this list.
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Seam {
    /// below SQLite: file operations
    Vfs,
    /// above SQLite: results of SQLite API calls as the service sees them
    Host,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum FKind {
    IoErr,
    Full,
    Torn { seed: u64 },
    Busy,
    NoMem,
    Crash { power: bool, seed: u64 },
}

/// Fault inside one call: fires at the `at`-th matching operation of the call, for `span` of them.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault {
    pub seam: Seam,
    pub kind: FKind,
    pub at: u32,
    pub span: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Tet {
    pub peer_pk: String,
    pub service_id: String,
    pub function_name: String,
    pub json_path: String,
}

/// What the host tells the service about a call.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cp {
    pub init_peer_id: String,
    pub service_id: String,
    pub service_creator_peer_id: String,
    pub host_id: String,
    pub particle_id: String,
    pub tetraplets: Vec<Vec<Tet>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub node: usize,
    pub f: String,
    pub args: Vec<Value>,
    pub cp: Cp,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    /// what the sender was up to (no effect on execution or judgement)
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub note: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    Call(Call),
    /// the node's process dies (power: unsynced writes are lost); it restarts on its next event
    Crash { node: usize, power: bool, seed: u64 },
    /// start the node, with faults during start-up
    Boot { node: usize, faults: Vec<Fault> },
    /// all faults stop, the network heals: statements acknowledged anywhere are redelivered
    /// everywhere in seeded orders, then all nodes are asked the same questions
    Heal { ts: u64, seed: u64, owner: String, roots: Vec<(String, u32)>, hosts: Vec<String>, peers: Vec<String> },
    /// the packaged start script (or the packaged certificates by hand) runs on the node; `faults`: (which call, fault);
    /// the host gives up before call number `stop`
    Install {
        node: usize,
        ts: u64,
        pace: u64,
        owner: String,
        host: String,
        script: bool,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        faults: Vec<(u32, Fault)>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        stop: Option<u32>,
    },
    /// a client runs a published function
    Aqua(crate::flow::Particle),
    /// what the package promises is looked up
    Inspect { node: usize, ts: u64, owner: String },
}
