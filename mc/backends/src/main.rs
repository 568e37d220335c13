//! Bounded exhaustive exploration of the line parser with every tag-scanning
//! backend, all of which are linked into this one process.

#[path = "../../parse/src/model.rs"]
#[allow(dead_code)]
mod model;

use mc_core::lines::{self, Lines};
use mc_core::{guard, Local, Run, Verdict};

/// What a line is decomposed into.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Obs {
  /// offset and length of each key and value
  tags: Vec<((usize, usize), (usize, usize))>,
  prefix: Option<String>,
  command: String,
  channel: Option<String>,
  params: Option<String>,
  text: Option<String>,
}

mod native {
  pub(crate) use super::{show, Obs};
  pub(crate) mod unit {
    use tmi;
    include!("unit.rs");
  }
}
#[cfg(feature = "sse2")]
mod sse2 {
  pub(crate) use super::{show, Obs};
  pub(crate) mod unit {
    use tmi_sse2 as tmi;
    include!("unit.rs");
  }
}
mod scalar {
  pub(crate) use super::{show, Obs};
  pub(crate) mod unit {
    use tmi_scalar as tmi;
    include!("unit.rs");
  }
}
#[cfg(feature = "neon")]
mod neon {
  pub(crate) use super::{show, Obs};
  pub(crate) mod unit {
    use tmi_neon as tmi;
    include!("unit.rs");
  }
}

struct Backend {
  name: &'static str,
  touch: fn(&str, bool) -> (bool, u64),
  observe: fn(&str) -> Option<Obs>,
  decompose: fn(&str) -> Verdict,
}

macro_rules! backend {
  ($name:expr, $m:ident) => {
    Backend { name: $name, touch: $m::unit::touch, observe: $m::unit::observe, decompose: $m::unit::decompose }
  };
}

fn backends() -> Vec<Backend> {
  // the scanner chosen for this build comes first: it is /repo itself
  let native = if cfg!(target_feature = "avx2") { "avx2" } else { "sse2" };
  vec![
    backend!(native, native),
    backend!("scalar", scalar),
    #[cfg(feature = "sse2")]
    backend!("sse2", sse2),
    #[cfg(feature = "neon")]
    backend!("neon", neon),
  ]
}

fn show(s: &str) -> String {
  if s.len() <= 400 {
    return format!("{s:?}");
  }
  let cut = |mut n: usize| {
    while !s.is_char_boundary(n) {
      n += 1;
    }
    n
  };
  format!("{:?}...{:?} ({} bytes)", &s[..cut(150)], &s[cut(s.len() - 100)..], s.len())
}

fn spaces(run: &Run) -> Vec<Lines> {
  let mut all = vec![
    lines::short(run.pick(7, 8)),
    lines::tokens(run.pick(5, 6)),
    lines::parts(),
    lines::characters(run.pick(70, 140)),
    lines::section_ends(run.pick(400, 700), run.pick(70, 140)),
    lines::no_end(run.pick(1000, 4000)),
    lines::clusters(run.pick(4, 6), 70, run.pick(36, 70)),
    lines::counts(run.pick(300, 1200)),
    lines::lengths(run.pick(17, 18)),
    lines::edits(),
  ];
  all.extend(lines::positions(run.pick(100, 140), if run.thorough() { &[31, 32, 33, 34, 35, 63, 64, 65, 66, 67] } else { &[32, 33, 34] }));
  if run.thorough() {
    all.push(lines::double_edits());
  }
  all
}

fn over<F>(run: &mut Run, spaces: Vec<Lines>, check: F)
where
  F: Fn(&str, u64, &mut Local) -> Verdict + Sync,
{
  for space in spaces {
    let bound = space.bound.clone();
    run.family(space.name, &bound, space.total, |i, local| {
      let mut line = String::new();
      space.get(i, &mut line);
      local.sample(i, || show(&line));
      check(&line, i, local).map_err(|e| format!("{e}\n  line: {}", show(&line)))
    });
  }
}

/// C01: nothing panics, hangs or reads outside of the string.
fn total(run: &mut Run) {
  run.assume("the string is a valid &str; memory outside of it is unmapped on one side at a time");
  let spaces = spaces(run);
  let all = backends();
  over(run, spaces, |line, _, local| {
    for b in &all {
      local.trace();
      local.steps(2);
      let r = mc_core::guarded(|| {
        let a = guard::with(|g| g.at_end(line, |s| (b.touch)(s, true)));
        let z = guard::with(|g| g.at_start(line, |s| (b.touch)(s, false)));
        (a, z.0)
      });
      let (a, z) = r.map_err(|e| format!("{}: {e}", b.name))?;
      local.state(&a);
      if a.0 != z {
        return Err(format!("{}: accepted or rejected depending on the surrounding memory", b.name));
      }
    }
    Ok(())
  });
}

/// C02: every part is the substring which the grammar says.
fn grammar(run: &mut Run) {
  let spaces = spaces(run);
  let all = backends();
  over(run, spaces, |line, _, local| {
    let m = model::parse(line);
    let steps = 1 + m.as_ref().map_or(0, |m| 6 + m.tags.len() as u64);
    local.state(&m.map(|m| m.shape(line)));
    for b in &all {
      local.trace();
      local.steps(steps);
      (b.decompose)(line).map_err(|e| format!("{}: {e}", b.name))?;
    }
    Ok(())
  });
}

fn differ(a: &Option<Obs>, an: &str, b: &Option<Obs>, bn: &str) -> String {
  let text = |o: &Option<Obs>| match o {
    None => "rejected".to_string(),
    Some(o) => {
      let mut s = format!("{} tags, {o:?}", o.tags.len());
      if s.len() > 500 {
        let mut n = 500;
        while !s.is_char_boundary(n) {
          n += 1;
        }
        s.truncate(n);
      }
      s
    }
  };
  format!("results differ\n  {an}: {}\n  {bn}: {}", text(a), text(b))
}

/// All backends at one place in memory.
fn agree(all: &[Backend], line: &str, local: &mut Local) -> Result<Option<Obs>, String> {
  let mut first = None;
  for (n, b) in all.iter().enumerate() {
    local.trace();
    local.steps(1);
    let got = mc_core::guarded(|| (b.observe)(line)).map_err(|e| format!("{}: {e}", b.name))?;
    if n == 0 {
      first = Some(got);
    } else if first.as_ref() != Some(&got) {
      return Err(differ(&first.unwrap(), all[0].name, &got, b.name));
    }
  }
  Ok(first.unwrap())
}

/// C03: the result depends neither on the backend nor on the place in memory.
fn backend_independence(run: &mut Run) {
  let all = backends();
  run.assume("NEON code runs with its intrinsics replaced by portable functions of the same meaning");
  for (what, there) in [("sse2", cfg!(feature = "sse2") || cfg!(not(target_feature = "avx2"))), ("neon", cfg!(feature = "neon")), ("avx2", cfg!(target_feature = "avx2"))] {
    if !there {
      run.assume(&format!("the {what} backend was not explored: it cannot be built or run here"));
    }
  }
  let sizes = vec![
    lines::counts(run.pick(300, 1200)),
    lines::lengths(run.pick(17, 18)),
  ];
  over(run, sizes, |line, _, local| {
    let got = guard::with(|g| g.at_end(line, |s| agree(&all, s, local)))?;
    local.state(&got);
    // any number and any length is handled: compare with the model
    let want = model::parse(line);
    let base = line.as_ptr() as usize;
    let span = |p: &str| (p.as_ptr() as usize - base, p.len());
    let want = want.map(|w| w.tags.iter().map(|(k, v)| (span(k), span(v))).collect::<Vec<_>>());
    if got.as_ref().map(|g| &g.tags) != want.as_ref() {
      return Err("tags are missing or cut".into());
    }
    Ok(())
  });
  // every alignment, with bytes around the line which look like separators
  let bound = run.pick(340, 700);
  let space = lines::section_ends(bound, run.pick(40, 70));
  let fills = [b' ', b'=', b';', b'a'];
  let name = "alignments";
  let text = format!("{} x alignment 0..=63 x 4 kinds of surroundings", space.bound);
  run.family(name, &text, space.total, |i, local| {
    let mut line = String::new();
    space.get(i, &mut line);
    local.sample(i, || show(&line));
    let at_end = guard::with(|g| g.at_end(&line, |s| agree(&all, s, local)))
      .map_err(|e| format!("{e}\n  line: {}", show(&line)))?;
    local.state(&at_end);
    for align in 0..64 {
      let fill = fills[(align + i as usize) % 4];
      let got = guard::with(|g| g.inside(align, fill, &line, |s| agree(&all, s, local)))
        .map_err(|e| format!("at alignment {align}: {e}\n  line: {}", show(&line)))?;
      if got != at_end {
        return Err(format!(
          "at alignment {align}: {}\n  line: {}",
          differ(&at_end, "at the end of a page", &got, "inside"),
          show(&line)
        ));
      }
    }
    Ok(())
  });
  let spaces = spaces(run).into_iter().filter(|s| !s.name.starts_with("numbers") && !s.name.starts_with("lengths")).collect();
  over(run, spaces, |line, i, local| {
    let got = guard::with(|g| g.at_end(line, |s| agree(&all, s, local)))?;
    local.state(&got);
    let align = (i % 61) as usize;
    let fill = fills[(i % 4) as usize];
    let again = guard::with(|g| g.inside(align, fill, line, |s| agree(&all, s, local)))?;
    if got != again {
      return Err(differ(&got, "at the end of a page", &again, "inside"));
    }
    Ok(())
  });
}

fn main() {
  let mut run = Run::from_args();
  match run.property.clone().as_str() {
    "C01" => total(&mut run),
    "C02" => grammar(&mut run),
    "C03" => backend_independence(&mut run),
    _ => mc_core::error("unknown property"),
  }
  run.finish()
}
