mod adoc;
mod engine;
mod html;
mod props;

use engine::*;
use std::path::{Path, PathBuf};

fn tier(s: &str) -> Tier {
  match s {
    "quick" => Tier::Quick,
    "thorough" => Tier::Thorough,
    _ => panic!("tier is quick or thorough"),
  }
}

fn prop(id: &str) -> Prop {
  props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"))
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  // the CLI runs on an 8 MB main thread
  std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
  let code = match a.as_slice() {
    ["list"] => {
      for p in props::all() {
        println!("{}", p.id);
      }
      0
    }
    ["check", id, t] => {
      let root = std::env::var("ADK_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into());
      engine::check(&prop(id), tier(t), &root)
    }
    ["worker", id, t, k, s0, i0, dir] => {
      let (id, t, k, s0, i0, dir) = (
        id.to_string(),
        tier(t),
        k.parse().unwrap(),
        s0.parse().unwrap(),
        i0.parse().unwrap(),
        dir.to_string(),
      );
      install_panic_hook();
      big_stack(move || worker(&prop(&id), t, k, (s0, i0), Path::new(&dir)));
      0
    }
    ["one", id, t, space, idx] => {
      let (id, t, space, idx) = (id.to_string(), tier(t), space.to_string(), idx.parse().unwrap());
      install_panic_hook();
      big_stack(move || one(&prop(&id), t, &space, idx))
    }
    ["fails", id, t, rest @ ..] => {
      // exploration aid: every violation of the spaces (whose name starts with ..) as a JSON line
      let (id, t, pre) = (id.to_string(), tier(t), rest.first().unwrap_or(&"").to_string());
      install_panic_hook();
      big_stack(move || engine::fails(&prop(&id), t, &pre))
    }
    ["replay", file] => {
      let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
      let id = v["property"].as_str().unwrap().to_string();
      let t = tier(v["tier"].as_str().unwrap());
      let space = v["space"].as_str().unwrap().to_string();
      let idx = v["idx"].as_u64().unwrap();
      install_panic_hook();
      big_stack(move || one(&prop(&id), t, &space, idx))
    }
    ["render", rest @ ..] => {
      // exploration aid: adk-mc render [dr|h5] [strict] [standalone] < doc
      let mut src = String::new();
      std::io::Read::read_to_string(&mut std::io::stdin(), &mut src).unwrap();
      let be = if rest.contains(&"h5") { adoc::Be::H5 } else { adoc::Be::Dr };
      let o = big_stack(move || {
        // Rc fields are created inside the thread
        let job = adoc::Job { strict: job_flags(0), embedded: job_flags(1), ..adoc::Job::default() };
        let o = job.render(&src, be);
        (o.html, o.diags)
      });
      if let Some(h) = o.0 {
        println!("{h}");
      }
      for d in o.1 {
        eprintln!("{d:?}");
      }
      0
    }
    _ => {
      eprintln!("usage: adk-mc check <ID> <quick|thorough> | replay <file> | list");
      2
    }
  };
  props::c08::cleanup();
  std::process::exit(code);
}

fn job_flags(n: u8) -> bool {
  let a: Vec<String> = std::env::args().collect();
  match n {
    0 => a.iter().any(|s| s == "strict"),
    _ => !a.iter().any(|s| s == "standalone"),
  }
}
