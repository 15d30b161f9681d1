mod alloc;
mod conv;
mod gen_;
mod html;
mod model;
mod orch;
mod props;
mod rng;
mod wild;

use orch::{Cx, Tier};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn tier_of(s: &str) -> Tier {
  if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  // the CLI converts on the main thread; give workers the same 8 MiB
  std::thread::Builder::new()
    .stack_size(8 << 20)
    .spawn(f)
    .unwrap()
    .join()
    .unwrap_or_else(|_| std::process::exit(101))
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  conv::install_hook();
  let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
  let num = |i: usize| -> u64 { a[i].parse().expect("number") };
  let seed_env = || std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
  match cmd {
    "list" => {
      for p in props::all() {
        println!("{}", p.id());
      }
    }
    "check" => {
      let p = props::get(&a[2]);
      let tier = tier_of(a.get(3).map(|s| s.as_str()).unwrap_or("quick"));
      std::process::exit(orch::check(p, tier, seed_env()));
    }
    "worker" => {
      alloc::set_limit(1 << 30);
      let a2 = a.clone();
      on_stack(move || {
        let p = props::get(&a2[2]);
        let n = |i: usize| a2[i].parse::<u64>().unwrap();
        orch::worker(p, tier_of(&a2[3]), n(4), n(5), n(6), n(7), a2[8].parse().unwrap(), a2[9].as_ref(), a2[10].as_ref());
      });
    }
    "replay" => {
      let p = props::get(&a[2]);
      let (tier, seed, idx) = (tier_of(&a[3]), num(4), num(5));
      let n = on_stack(move || {
        let mut cx = Cx::new(seed, tier);
        cx.verbose = true;
        orch::seed_case(&mut cx, p, idx);
        p.run(&mut cx);
        println!("{} failure(s)", cx.fails.len());
        cx.fails.len()
      });
      std::process::exit((n > 0) as i32);
    }
    "conv" => {
      // vh conv FILE [be] : convert a file, lenient, and print (debugging aid)
      let src = std::fs::read_to_string(&a[2]).unwrap();
      let be = if a.get(3).map(|s| s.as_str()) == Some("h5") { conv::Be::H5 } else { conv::Be::Dr };
      match conv::run(&conv::Job::new(src).be(be)) {
        conv::Run::Done(d) => {
          println!("{}", d.html.unwrap_or_default());
          for d in d.diags {
            eprintln!("{d:?}");
          }
        }
        conv::Run::Panic { msg, loc } => println!("PANIC {loc} {msg}"),
      }
    }
    "runjob" => {
      // vh runjob FILE.json : run a described job and print its outcome signature
      alloc::set_limit(300 << 20);
      let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
      let job = conv::Job::from_json(&v);
      let show = a.get(3).is_some();
      on_stack(move || match conv::run(&job) {
        conv::Run::Done(d) => {
          println!("OK");
          if show {
            println!("{}", d.html.unwrap_or_default());
            for d in d.diags {
              println!("{d:?}");
            }
          }
        }
        conv::Run::Panic { msg, loc } => println!("PANIC {loc} {msg}"),
      });
    }
    "dump" => {
      // vh dump INDEX SEED : print the totality job for a case index
      let p = props::get("C01");
      let mut cx = Cx::new(num(3), Tier::Quick);
      orch::seed_case(&mut cx, p, num(2));
      let j = props::totality::random_job(&mut cx.rng);
      println!("{}", serde_json::to_string_pretty(&j.describe()).unwrap());
    }
    _ => {
      eprintln!("usage: vh check|worker|replay|list ...");
      std::process::exit(2);
    }
  }
}
