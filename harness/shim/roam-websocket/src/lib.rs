//! Stand-in for roam-websocket.
pub use roam_session::sim::WsTransport;
