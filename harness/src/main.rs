//! Property checks for pemv. `run <property>` or `replay <file>`.

#![allow(dead_code)]

mod common;
mod company;
mod display;
mod engine;
mod exec;
mod gen;
mod props;
mod spec;
mod wire;

use std::path::PathBuf;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let var = |name: &str, default: &str| std::env::var(name).unwrap_or_else(|_| default.to_owned());
	let verif = PathBuf::from(var("PEMV_VERIF_DIR", "/verif"));
	let repo = PathBuf::from(var("PEMV_VERIF_REPO", "/repo"));
	let exe = PathBuf::from(var("PEMV_VERIF_EXE", "/nonexistent"));
	let scratch = PathBuf::from(var("PEMV_VERIF_SCRATCH", "/nonexistent"));
	if !exe.is_file() || !scratch.is_dir() {
		eprintln!("PEMV_VERIF_EXE and PEMV_VERIF_SCRATCH have to be set (use ./check)");
		std::process::exit(2);
	}
	let mut seed: u64 = var("VERIF_SEED", "1").trim().parse().unwrap_or(1);
	let mut thorough = var("VERIF_TIER", "quick") == "thorough";
	let (property, replay) = match args.iter().map(String::as_str).collect::<Vec<_>>()[..] {
		["run", property] => (property.to_owned(), None),
		["run", property, tier] => {
			thorough = tier == "thorough";
			(property.to_owned(), None)
		}
		["replay", file] => {
			let body: serde_json::Value = match std::fs::read_to_string(file)
				.map_err(|e| e.to_string())
				.and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
			{
				Ok(v) => v,
				Err(e) => {
					eprintln!("can't read {file}: {e}");
					std::process::exit(2);
				}
			};
			seed = body["seed"].as_u64().unwrap_or(seed);
			(
				body["property"].as_str().unwrap_or("").to_owned(),
				Some((
					body["section"].as_str().unwrap_or("").to_owned(),
					body["case"].clone(),
				)),
			)
		}
		_ => {
			eprintln!("usage: run <property> [quick|thorough] | replay <file>");
			std::process::exit(2);
		}
	};
	let Some(check) = props::find(&property) else {
		eprintln!("no such property: {property}");
		std::process::exit(2);
	};
	gen::harvest(&repo.join("src"));
	exec::init(exe);
	// Configuration files are searched for from here on upwards
	let home = scratch.join("home");
	if let Err(e) = std::fs::create_dir_all(&home).and_then(|()| std::env::set_current_dir(&home)) {
		eprintln!("can't use {}: {e}", home.display());
		std::process::exit(2);
	}
	let ctx = engine::Ctx::new(&property, thorough, seed, scratch, verif, replay);
	std::process::exit(check(&ctx));
}
