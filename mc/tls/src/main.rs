//! Bounded exhaustive exploration of connections to real TLS servers. See /verif/DESIGN.md.

#[path = "../../client/src/capture.rs"]
mod capture;
mod check;
#[path = "../../client/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[path = "../../client/src/proto.rs"]
#[allow(dead_code)]
mod proto;
mod moved;
#[path = "../../client/src/sendable.rs"]
mod sendable;
mod server;
mod stream;
mod world;

fn main() {
  std::env::remove_var("SSL_CERT_DIR");
  let mut run = mc_core::Run::from_args();
  match run.property.clone().as_str() {
    "C16" => stream::delivery(&mut run),
    "C17" => stream::receiving(&mut run),
    "C21" => check::secrets(&mut run),
    "C22" => check::authenticated(&mut run),
    "C23" => check::errors(&mut run),
    "C31" => check::released(&mut run),
    "C32" => moved::check(&mut run),
    _ => mc_core::error("unknown property"),
  }
  run.finish()
}
