pub mod engine;
pub mod peer;
pub mod scenario;
pub mod sim;
pub mod wire;
pub mod c_session;
pub mod c_wire;
pub mod c_hand;
pub mod c_hostile;
pub mod c_life;
pub mod c_conc;
pub mod mem;
pub mod fork;
pub mod c_crowd;
pub mod c_cancel;
pub mod c_multi;
pub mod c_pending;
pub mod c_real;
pub mod c_wrap;
pub mod monitor;
