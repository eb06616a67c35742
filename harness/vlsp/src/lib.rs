//! `lsp_server` with its connection on schedule-controlled channels; messages, ids and
//! errors are those of the real crate, the handshake follows it step by step.
use crossbeam::channel::{Receiver, RecvError, Sender, unbounded};
pub use real::{ErrorCode, ExtractError, Incoming, Message, Notification, Outgoing, ReqQueue, Request, RequestId, Response, ResponseError};

#[derive(Debug, Clone, PartialEq)]
pub struct ProtocolError(String);
impl std::fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ProtocolError {}
impl ProtocolError {
    pub fn channel_is_disconnected(&self) -> bool {
        self.0.contains("disconnected")
    }
}
fn err<T>(s: impl Into<String>) -> Result<T, ProtocolError> {
    Err(ProtocolError(s.into()))
}
fn is(n: &Notification, m: &str) -> bool {
    n.method == m
}

pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}
pub struct IoThreads;
impl IoThreads {
    pub fn join(self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Connection {
    pub fn stdio() -> (Connection, IoThreads) {
        unimplemented!("no transport under a controlled schedule")
    }
    pub fn memory() -> (Connection, Connection) {
        let (s1, r1) = unbounded();
        let (s2, r2) = unbounded();
        (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
    }
    pub fn initialize_start(&self) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        loop {
            match self.receiver.recv() {
                Err(RecvError) => return err("disconnected channel"),
                Ok(Message::Request(req)) if req.method == "initialize" => return Ok((req.id, req.params)),
                Ok(Message::Request(req)) => {
                    let m = format!("expected initialize request, got {req:?}");
                    self.sender.send(Response::new_err(req.id, ErrorCode::ServerNotInitialized as i32, m).into()).unwrap();
                }
                Ok(Message::Notification(n)) if !is(&n, "exit") => {}
                Ok(m) => return err(format!("expected initialize request, got {m:?}")),
            }
        }
    }
    pub fn initialize_finish(&self, id: RequestId, result: serde_json::Value) -> Result<(), ProtocolError> {
        self.sender.send(Response::new_ok(id, result).into()).unwrap();
        match self.receiver.recv() {
            Ok(Message::Notification(n)) if is(&n, "initialized") => Ok(()),
            Ok(m) => err(format!("expected initialized notification, got: {m:?}")),
            Err(RecvError) => err("disconnected channel"),
        }
    }
    pub fn initialize(&self, capabilities: serde_json::Value) -> Result<serde_json::Value, ProtocolError> {
        let (id, params) = self.initialize_start()?;
        self.initialize_finish(id, serde_json::json!({ "capabilities": capabilities }))?;
        Ok(params)
    }
    pub fn handle_shutdown(&self, req: &Request) -> Result<bool, ProtocolError> {
        if req.method != "shutdown" {
            return Ok(false);
        }
        let _ = self.sender.send(Response::new_ok(req.id.clone(), ()).into());
        match self.receiver.recv() {
            Ok(Message::Notification(n)) if is(&n, "exit") => Ok(true),
            Ok(m) => err(format!("unexpected message during shutdown: {m:?}")),
            Err(RecvError) => err("channel disconnected waiting for exit notification"),
        }
    }
}
