use crate::{json, Found, Run, Tier, Value};

pub fn violation(root: &str, property: &str, variant: &str, tier: Tier, found: &Found) {
  let dir = format!("{root}/replays");
  let _ = std::fs::create_dir_all(&dir);
  let family: String = found
    .family
    .chars()
    .map(|c| if c.is_ascii_alphanumeric() { c } else { '-' })
    .collect();
  let path = format!("{dir}/{property}-{variant}-{family}-{}.json", found.case);
  let replay = json!({
    "property": property,
    "variant": variant,
    "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
    "family": found.family,
    "case": found.case,
    "choices": found.choices,
    "message": found.message,
  });
  let _ = std::fs::write(&path, format!("{replay:#}\n"));
  println!("{property}: {} case {}: {}", found.family, found.case, found.message);
  println!("VIOLATION property={property} replay={path}");
}

pub fn evidence(run: &Run) {
  if run.evidence.is_empty() || run.replay.is_some() {
    return;
  }
  let sum = |f: fn(&crate::FamilyReport) -> u64| run.families.iter().map(f).sum::<u64>();
  let families: Vec<Value> = run
    .families
    .iter()
    .map(|f| {
      json!({
        "family": f.name, "variant": run.variant, "bound": f.bound, "cases": f.cases,
        "size_of_space": f.total,
        "states": f.states, "transitions": f.transitions, "traces": f.traces,
        "max_deviations": f.max_deviations,
        "digest": format!("{:016x}", f.digest), "wall_s": f.wall,
      })
    })
    .collect();
  let complete = run.found.is_none() && run.families.iter().all(|f| f.cases == f.total);
  let v = json!({
    "property": run.property,
    "tier": if run.thorough() { "thorough" } else { "quick" },
    "seed": run.seed,
    "level": "model_checking",
    "coverage": {
      "states": sum(|f| f.states),
      "transitions": sum(|f| f.transitions),
      "traces_validated_against_impl": sum(|f| f.traces),
      "samples": run.samples,
      "exhaustive": complete,
      "families": families,
    },
    "assumptions": run.assumptions,
    "wall_s": run.start.elapsed().as_secs_f64(),
    "violations": run.found.is_some() as u64,
  });
  if let Err(e) = std::fs::write(&run.evidence, format!("{v:#}\n")) {
    crate::error(&format!("{}: {e}", run.evidence));
  }
}
