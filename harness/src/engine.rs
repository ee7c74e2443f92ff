//! Sections of generated or enumerated cases, their statistics, replays and
//! evidence.

use std::{
	collections::{BTreeMap, HashSet},
	hash::{DefaultHasher, Hash, Hasher},
	path::PathBuf,
	sync::{
		atomic::{AtomicBool, AtomicUsize, Ordering},
		Mutex,
	},
	time::Instant,
};

use proptest::{
	strategy::{BoxedStrategy, Strategy},
	test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

use crate::exec::RUNS;

pub const WORKERS: usize = 8;

#[derive(Clone, Debug)]
pub enum Failure {
	/// The property doesn't hold on this case.
	Violation(String),
	/// The harness couldn't decide.
	Infra(String),
}
impl From<String> for Failure {
	fn from(message: String) -> Self {
		Self::Violation(message)
	}
}
impl From<&str> for Failure {
	fn from(message: &str) -> Self {
		Self::Violation(message.to_owned())
	}
}

/// What a case that passed was worth.
#[derive(Clone, Debug)]
pub struct Seen {
	pub nontrivial: bool,
	pub class:      &'static str,
	/// Objects, values or relations judged by this case.
	pub objects:    u64,
}
pub fn seen(nontrivial: bool, class: &'static str) -> Result<Seen, Failure> {
	Ok(Seen {
		nontrivial,
		class,
		objects: 1,
	})
}
pub fn seen_n(nontrivial: bool, class: &'static str, objects: usize) -> Result<Seen, Failure> {
	Ok(Seen {
		nontrivial,
		class,
		objects: objects as u64,
	})
}

pub type Checked = Result<Seen, Failure>;

pub trait Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync {}
impl<T: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync> Case for T {}

enum Mode {
	Run,
	Replay { section: String, case: Value },
}

#[derive(Default)]
struct SectionStats {
	evaluations: u64,
	nontrivial:  HashSet<u64>,
	objects:     u64,
	classes:     BTreeMap<&'static str, u64>,
	samples:     Vec<Value>,
	exhaustive:  bool,
	wall_s:      f64,
}
impl SectionStats {
	fn note<C: Case>(&mut self, case: &C, seen: &Seen) {
		self.evaluations += 1;
		self.objects += seen.objects;
		*self.classes.entry(seen.class).or_default() += 1;
		if seen.nontrivial {
			let text = serde_json::to_string(case).unwrap_or_default();
			let mut h = DefaultHasher::new();
			text.hash(&mut h);
			let fresh = self.nontrivial.insert(h.finish());
			if fresh && self.samples.len() < 2 && text.len() < 4000 {
				self.samples.push(json!({"case": serde_json::from_str::<Value>(&text).ok(), "class": seen.class}));
			}
		}
	}

	fn merge(&mut self, other: Self) {
		self.evaluations += other.evaluations;
		self.nontrivial.extend(other.nontrivial);
		self.objects += other.objects;
		for (k, v) in other.classes {
			*self.classes.entry(k).or_default() += v;
		}
		for s in other.samples {
			if self.samples.len() < 3 {
				self.samples.push(s);
			}
		}
	}
}

pub struct Ctx {
	pub property: String,
	pub thorough: bool,
	pub seed:     u64,
	/// Where files may be written.
	pub scratch:  PathBuf,
	pub verif:    PathBuf,
	mode:         Mode,
	start:        Instant,
	sections:     Mutex<Vec<(String, SectionStats)>>,
	violated:     AtomicBool,
	infra:        Mutex<Option<String>>,
	replayed:     AtomicBool,
}

impl Ctx {
	pub fn new(
		property: &str,
		thorough: bool,
		seed: u64,
		scratch: PathBuf,
		verif: PathBuf,
		replay: Option<(String, Value)>,
	) -> Self {
		Self {
			property: property.to_owned(),
			thorough,
			seed,
			scratch,
			verif,
			mode: match replay {
				None => Mode::Run,
				Some((section, case)) => Mode::Replay { section, case },
			},
			start: Instant::now(),
			sections: Mutex::default(),
			violated: AtomicBool::new(false),
			infra: Mutex::default(),
			replayed: AtomicBool::new(false),
		}
	}

	fn stopped(&self) -> bool {
		self.violated.load(Ordering::SeqCst) || self.infra.lock().unwrap().is_some()
	}

	fn fail_infra(&self, message: String) {
		let mut slot = self.infra.lock().unwrap();
		if slot.is_none() {
			eprintln!("harness error: {message}");
			*slot = Some(message);
		}
	}

	/// Returns `true` if this is a replay (whether of this section or not).
	fn replay<C: Case>(&self, section: &str, check: &(dyn Fn(&C) -> Checked + Sync)) -> bool {
		let Mode::Replay {
			section: wanted,
			case,
		} = &self.mode
		else {
			return false;
		};
		if wanted == section {
			self.replayed.store(true, Ordering::SeqCst);
			match serde_json::from_value::<C>(case.clone()) {
				Err(e) => self.fail_infra(format!("unreadable case: {e}")),
				Ok(case) => match check(&case) {
					Ok(_) => println!("replay: the property holds on this case"),
					Err(Failure::Infra(e)) => self.fail_infra(e),
					Err(Failure::Violation(m)) => {
						self.violated.store(true, Ordering::SeqCst);
						println!("replay: {m}");
					}
				},
			}
		}
		true
	}

	fn violation<C: Case>(&self, section: &str, case: &C, message: &str) {
		if self.violated.swap(true, Ordering::SeqCst) {
			return;
		}
		let case = serde_json::to_value(case).unwrap_or(Value::Null);
		let mut h = DefaultHasher::new();
		(section, case.to_string()).hash(&mut h);
		let dir = self.verif.join("replays");
		let path = dir.join(format!("{}-{:016x}.json", self.property, h.finish()));
		let body = json!({
			"property": self.property, "section": section, "case": case, "message": message,
			"seed": self.seed, "replay": format!("./check replay {}", path.display()),
		});
		let written = std::fs::create_dir_all(&dir)
			.and_then(|()| std::fs::write(&path, format!("{body:#}\n")));
		if let Err(e) = written {
			eprintln!("can't write {}: {e}", path.display());
		}
		println!("section {section}: {message}");
		println!("VIOLATION property={} replay={}", self.property, path.display());
	}

	/// Checks generated cases; the number is fixed by the tier.
	pub fn random<C: Case, F>(
		&self,
		section: &str,
		quick: u32,
		strategy: impl Fn() -> BoxedStrategy<C> + Sync,
		check: F,
	) where
		F: Fn(&C) -> Checked + Sync,
	{
		if self.replay(section, &check) || self.stopped() {
			return;
		}
		let start = Instant::now();
		let total = if self.thorough { quick * 20 } else { quick };
		let stats = Mutex::new(SectionStats::default());
		std::thread::scope(|scope| {
			for worker in 0..WORKERS {
				let (strategy, check, stats) = (&strategy, &check, &stats);
				let cases = total / WORKERS as u32
					+ u32::from((worker as u32) < total % WORKERS as u32);
				scope.spawn(move || {
					let mut h = DefaultHasher::new();
					(self.seed, &self.property, section, worker).hash(&mut h);
					let mut seed = [0u8; 32];
					for chunk in seed.chunks_mut(8) {
						chunk.copy_from_slice(&h.finish().to_le_bytes());
						0u8.hash(&mut h);
					}
					let mut runner = TestRunner::new_with_rng(
						Config {
							cases,
							failure_persistence: None,
							max_shrink_iters: 2000,
							max_shrink_time: 60_000,
							max_local_rejects: 1 << 20,
							max_global_rejects: 1 << 20,
							..Config::default()
						},
						TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
					);
					let local = std::cell::RefCell::new(SectionStats::default());
					let failing = std::cell::Cell::new(false);
					let result = runner.run(&strategy(), |case| {
						if !failing.get() && self.stopped() {
							return Ok(());
						}
						match check(&case) {
							Ok(seen) => {
								if !failing.get() {
									local.borrow_mut().note(&case, &seen);
								}
								Ok(())
							}
							Err(Failure::Violation(m)) => {
								failing.set(true);
								Err(TestCaseError::fail(m))
							}
							Err(Failure::Infra(e)) => {
								self.fail_infra(e);
								Ok(())
							}
						}
					});
					match result {
						Ok(()) => {}
						Err(TestError::Fail(reason, case)) => {
							self.violation(section, &case, reason.message());
						}
						Err(TestError::Abort(reason)) => {
							self.fail_infra(format!("{section}: generator gave up: {reason}"));
						}
					}
					stats.lock().unwrap().merge(local.into_inner());
				});
			}
		});
		let mut stats = stats.into_inner().unwrap();
		stats.wall_s = start.elapsed().as_secs_f64();
		self.sections.lock().unwrap().push((section.to_owned(), stats));
	}

	/// Checks every case of a list. `exhaustive` says that the list is a complete
	/// finite domain.
	pub fn each<C: Case, F>(&self, section: &str, exhaustive: bool, cases: &[C], check: F)
	where
		F: Fn(&C) -> Checked + Sync,
	{
		if self.replay(section, &check) || self.stopped() {
			return;
		}
		let start = Instant::now();
		let stats = Mutex::new(SectionStats::default());
		let next = AtomicUsize::new(0);
		// The earliest failing case is the one reported, whatever the timing
		let first_bad: Mutex<Option<(usize, String)>> = Mutex::new(None);
		std::thread::scope(|scope| {
			for _ in 0..WORKERS {
				scope.spawn(|| {
					let mut local = SectionStats::default();
					loop {
						let i = next.fetch_add(1, Ordering::SeqCst);
						if i >= cases.len()
							|| self.stopped()
							|| first_bad.lock().unwrap().is_some()
						{
							break;
						}
						match check(&cases[i]) {
							Ok(seen) => local.note(&cases[i], &seen),
							Err(Failure::Infra(e)) => self.fail_infra(e),
							Err(Failure::Violation(m)) => {
								let mut slot = first_bad.lock().unwrap();
								if slot.as_ref().is_none_or(|(j, _)| i < *j) {
									*slot = Some((i, m));
								}
							}
						}
					}
					stats.lock().unwrap().merge(local);
				});
			}
		});
		if let Some((i, m)) = first_bad.into_inner().unwrap() {
			self.violation(section, &cases[i], &m);
		}
		let mut stats = stats.into_inner().unwrap();
		stats.exhaustive = exhaustive;
		stats.wall_s = start.elapsed().as_secs_f64();
		self.sections.lock().unwrap().push((section.to_owned(), stats));
	}

	/// Writes the evidence file and gives the exit status.
	pub fn finish(&self, rule: &str, assumptions: &[&str]) -> i32 {
		if let Mode::Replay { .. } = self.mode {
			if !self.replayed.load(Ordering::SeqCst) {
				eprintln!("no such section");
				return 2;
			}
			return if self.violated.load(Ordering::SeqCst) {
				1
			} else {
				2 * i32::from(self.infra.lock().unwrap().is_some())
			};
		}
		let violated = self.violated.load(Ordering::SeqCst);
		let infra = self.infra.lock().unwrap().is_some();
		let sections = self.sections.lock().unwrap();
		let mut samples = Vec::new();
		for (name, s) in sections.iter() {
			for sample in s.samples.iter().take(2) {
				samples.push(json!({"section": name, "sample": sample}));
			}
		}
		let per_section: serde_json::Map<String, Value> = sections
			.iter()
			.map(|(name, s)| {
				(
					name.clone(),
					json!({
						"evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial.len(),
						"objects_judged": s.objects, "classes": s.classes,
						"complete_enumeration": s.exhaustive,
						"wall_s": (s.wall_s * 100.0).round() / 100.0,
					}),
				)
			})
			.collect();
		let evaluations: u64 = sections.iter().map(|(_, s)| s.evaluations).sum();
		let distinct: u64 = sections.iter().map(|(_, s)| s.nontrivial.len() as u64).sum();
		let objects: u64 = sections.iter().map(|(_, s)| s.objects).sum();
		let evidence = json!({
			"property": self.property,
			"tier": if self.thorough { "thorough" } else { "quick" },
			"seed": self.seed,
			"level": "exploration",
			"coverage": {
				"evaluations": evaluations,
				"distinct_nontrivial": distinct,
				"rule": rule,
				"samples": samples,
				"objects_judged": objects,
				"program_runs": RUNS.load(Ordering::SeqCst),
				"sections": per_section,
			},
			"assumptions": assumptions,
			"wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
			"violations": i32::from(violated),
		});
		let dir = self.verif.join("evidence");
		let path = dir.join(format!("{}.json", self.property));
		if let Err(e) = std::fs::create_dir_all(&dir)
			.and_then(|()| std::fs::write(&path, format!("{evidence:#}\n")))
		{
			eprintln!("can't write {}: {e}", path.display());
			return 2;
		}
		println!(
			"{}: {} cases ({} distinct non-trivial), {} objects judged, {} program runs, {:.1} s",
			self.property,
			evaluations,
			distinct,
			objects,
			RUNS.load(Ordering::SeqCst),
			self.start.elapsed().as_secs_f64()
		);
		if violated {
			1
		} else if infra {
			2
		} else {
			0
		}
	}
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
	s.boxed()
}
