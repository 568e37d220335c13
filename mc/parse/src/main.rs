//! Bounded exhaustive exploration of the parsers. See /verif/DESIGN.md.

mod badges;
mod equal;
mod escapes;
mod history;
mod lines;
mod memory;
mod model;
mod names;
mod owned;
mod reread;
mod spaces;
mod typed;
mod view;

#[global_allocator]
static ALLOCATOR: mc_core::memory::Counting = mc_core::memory::Counting;

fn main() {
  let mut run = mc_core::Run::from_args();
  match run.property.clone().as_str() {
    "C01" => lines::total(&mut run),
    "C02" => lines::grammar(&mut run),
    "C04" => names::names(&mut run),
    "C05" => lines::forms(&mut run),
    "C06" => escapes::run(&mut run),
    "C07" => typed::chat(&mut run),
    "C08" => typed::notices(&mut run),
    "C09" => typed::moderation(&mut run),
    "C10" => typed::dispatch(&mut run),
    "C11" => badges::run(&mut run),
    "C12" => owned::owned(&mut run),
    "C13" => owned::serialized(&mut run),
    "C27" => history::run(&mut run),
    "C28" => equal::run(&mut run),
    "C30" => reread::run(&mut run),
    "C29" => memory::run(&mut run),
    _ => mc_core::error("unknown property"),
  }
  run.finish()
}
