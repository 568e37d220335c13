//! Bounded exhaustive exploration of the client. See /verif/DESIGN.md.

mod both;
mod capture;
mod config;
mod connect;
mod errors;
mod memory;
mod net;
mod ops;
mod proto;
mod recv;
mod release;
mod secrets;
mod send;
mod sendable;
mod threads;

#[global_allocator]
static ALLOCATOR: mc_core::memory::Counting = mc_core::memory::Counting;

fn main() {
  // no trusted roots: nothing is ever encrypted here
  std::env::set_var("SSL_CERT_FILE", "/dev/null");
  let mut run = mc_core::Run::from_args();
  match run.property.clone().as_str() {
    "C15" => send::wire(&mut run),
    "C16" => send::delivered(&mut run),
    "C17" => recv::run_check(&mut run),
    "C18" => connect::handshake(&mut run),
    "C19" => connect::backoff(&mut run),
    "C20" => connect::fresh(&mut run),
    "C21" => secrets::run_check(&mut run),
    "C23" => errors::run_check(&mut run),
    "C25" => config::run_check(&mut run),
    "C26" => both::run_check(&mut run),
    "C29" => memory::run_check(&mut run),
    "C31" => release::run_check(&mut run),
    "C32" => threads::run_check(&mut run),
    "C24" => send::bypass(&mut run),
    _ => mc_core::error("unknown property"),
  }
  run.finish()
}
