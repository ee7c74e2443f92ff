//! Running the program under test.

use std::{
	cell::RefCell,
	collections::HashMap,
	ffi::OsString,
	fs::File,
	io::{Seek, SeekFrom},
	os::{
		fd::FromRawFd,
		unix::{
			ffi::OsStringExt,
			fs::FileExt,
			process::{CommandExt, ExitStatusExt},
		},
	},
	path::{Path, PathBuf},
	process::{Command, Stdio},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Mutex,
		OnceLock,
	},
	time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};

/// CPU seconds after which a run counts as unbounded work.
pub const CPU_LIMIT: u64 = 20;
/// Wall-clock seconds after which the harness gives up on a run (error exit).
const WALL_LIMIT: u64 = 150;
const OUTPUT_LIMIT: u64 = 512 << 20;
const MEMORY_LIMIT: u64 = 3 << 30;

static EXE: OnceLock<PathBuf> = OnceLock::new();
pub static RUNS: AtomicU64 = AtomicU64::new(0);
static RUNNING: OnceLock<Mutex<HashMap<u32, Instant>>> = OnceLock::new();
static WALL_KILL: AtomicBool = AtomicBool::new(false);

pub fn init(exe: PathBuf) {
	EXE.set(exe).expect("init is called once");
	RUNNING.get_or_init(Default::default);
	std::thread::spawn(|| loop {
		std::thread::sleep(Duration::from_secs(1));
		for (pid, start) in RUNNING.get().unwrap().lock().unwrap().iter() {
			if start.elapsed().as_secs() > WALL_LIMIT {
				WALL_KILL.store(true, Ordering::SeqCst);
				unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
			}
		}
	});
}
pub fn exe() -> &'static Path {
	EXE.get().expect("init was called")
}

/// One command line with its environment.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Inv {
	pub args: Vec<String>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub env:  Vec<(String, String)>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub cwd:  Option<PathBuf>,
}

impl Inv {
	pub fn new<S: Into<String>>(args: impl IntoIterator<Item = S>) -> Self {
		Self {
			args: args.into_iter().map(Into::into).collect(),
			..Default::default()
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
	Code(i32),
	Signal(i32),
}

#[derive(Clone, Debug)]
pub struct Out {
	pub stdout: Vec<u8>,
	pub stderr: Vec<u8>,
	pub end:    End,
}

struct Capture {
	out: File,
	err: File,
}

fn memfd() -> Result<File, String> {
	let fd = unsafe { libc::memfd_create(c"pemv-verif".as_ptr(), libc::MFD_CLOEXEC) };
	if fd < 0 {
		return Err(format!("memfd_create: {}", std::io::Error::last_os_error()));
	}
	Ok(unsafe { File::from_raw_fd(fd) })
}

thread_local! {
	static CAPTURE: RefCell<Option<Capture>> = const { RefCell::new(None) };
}

fn reset(f: &mut File) -> Result<(), String> {
	f.set_len(0).map_err(|e| e.to_string())?;
	f.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
	Ok(())
}
fn contents(f: &File) -> Result<Vec<u8>, String> {
	let len = f.metadata().map_err(|e| e.to_string())?.len() as usize;
	let mut buf = vec![0; len];
	f.read_exact_at(&mut buf, 0).map_err(|e| e.to_string())?;
	Ok(buf)
}

fn limit(pid: i32, what: libc::__rlimit_resource_t, value: u64) {
	let lim = libc::rlimit {
		rlim_cur: value,
		rlim_max: value + if what == libc::RLIMIT_CPU { 5 } else { 0 },
	};
	unsafe {
		libc::prlimit(pid, what, &lim, std::ptr::null_mut());
	}
}

pub fn command(inv: &Inv) -> Command {
	let mut c = Command::new(exe());
	c.args(&inv.args)
		.env_clear()
		.envs(inv.env.iter().map(|(k, v)| (k, v)));
	if let Some(cwd) = &inv.cwd {
		c.current_dir(cwd);
	}
	c
}

pub fn run(inv: &Inv) -> Result<Out, String> {
	run_command(command(inv), Stdio::null())
}

/// As [`run`], with something to read on standard input and maybe under
/// another name.
pub fn run_reading(inv: &Inv, input: Option<&[u8]>, name: Option<&str>) -> Result<Out, String> {
	let mut c = command(inv);
	if let Some(name) = name {
		c.arg0(name);
	}
	let stdin = match input {
		None => Stdio::null(),
		Some(text) => {
			let mut f = memfd()?;
			f.write_all_at(text, 0).map_err(|e| e.to_string())?;
			f.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
			Stdio::from(f)
		}
	};
	run_command(c, stdin)
}

/// As [`run`], in a directory that's deleted before the program starts.
pub fn run_homeless(inv: &Inv, dir: &Path) -> Result<Out, String> {
	std::fs::create_dir(dir).map_err(|e| e.to_string())?;
	let mut c = command(inv);
	c.current_dir(dir);
	let name = std::ffi::CString::new(dir.as_os_str().as_encoded_bytes()).map_err(|e| e.to_string())?;
	unsafe {
		// (the directory has been changed to by then)
		c.pre_exec(move || {
			if libc::rmdir(name.as_ptr()) == 0 {
				Ok(())
			} else {
				Err(std::io::Error::last_os_error())
			}
		});
	}
	run_command(c, Stdio::null())
}

/// As [`run`], for arguments that aren't text.
pub fn run_bytes(args: &[Vec<u8>]) -> Result<Out, String> {
	let mut c = Command::new(exe());
	c.args(args.iter().map(|a| OsString::from_vec(a.clone())))
		.env_clear();
	run_command(c, Stdio::null())
}

fn run_command(mut c: Command, stdin: Stdio) -> Result<Out, String> {
	CAPTURE.with(|cell| {
		let mut slot = cell.borrow_mut();
		if slot.is_none() {
			*slot = Some(Capture {
				out: memfd()?,
				err: memfd()?,
			});
		}
		let cap = slot.as_mut().unwrap();
		reset(&mut cap.out)?;
		reset(&mut cap.err)?;
		let dup = |f: &File| f.try_clone().map_err(|e| e.to_string());
		c.stdin(stdin)
			.stdout(dup(&cap.out)?)
			.stderr(dup(&cap.err)?);
		let mut child = c.spawn().map_err(|e| format!("spawn: {e}"))?;
		RUNS.fetch_add(1, Ordering::Relaxed);
		let pid = child.id();
		limit(pid as i32, libc::RLIMIT_CPU, CPU_LIMIT);
		limit(pid as i32, libc::RLIMIT_AS, MEMORY_LIMIT);
		limit(pid as i32, libc::RLIMIT_FSIZE, OUTPUT_LIMIT);
		limit(pid as i32, libc::RLIMIT_CORE, 0);
		let running = RUNNING.get().unwrap();
		running.lock().unwrap().insert(pid, Instant::now());
		let status = child.wait();
		running.lock().unwrap().remove(&pid);
		let status = status.map_err(|e| format!("wait: {e}"))?;
		if WALL_KILL.load(Ordering::SeqCst) {
			return Err("a run exceeded the wall-clock watchdog".to_owned());
		}
		let end = match (status.code(), status.signal()) {
			(Some(code), _) => End::Code(code),
			(None, Some(libc::SIGKILL)) => {
				return Err("a run was killed from outside (out of memory?)".to_owned())
			}
			(None, Some(s)) => End::Signal(s),
			(None, None) => return Err("no exit status".to_owned()),
		};
		Ok(Out {
			stdout: contents(&cap.out)?,
			stderr: contents(&cap.err)?,
			end,
		})
	})
}

/// What standard input may be.
pub const INPUTS: &[&str] = &[
	"null", "zero", "random", "full", "closed", "directory", "file", "write-only file", "executable", "pipe", "closed pipe", "socket", "memory", "anonymous",
];
/// What standard output and error may be.
pub const OUTPUTS: &[&str] = &["memory", "pipe", "socket", "datagrams", "file", "appended file", "write-only file"];

/// As [`run`], with standard input, output and error of several kinds (of
/// [`INPUTS`] and [`OUTPUTS`]). Both outputs go to the same place, which is
/// shown as the output, if the error's kind is `same`.
pub fn run_between(inv: &Inv, scratch: &Path, input: &str, output: &str, error: &str) -> Result<Out, String> {
	static NEXT: AtomicU64 = AtomicU64::new(0);
	let failed = |what: &str| format!("{what}: {}", std::io::Error::last_os_error());
	let pair = |kind: i32| -> Result<(File, File), String> {
		let mut fds = [0; 2];
		let rc = unsafe { libc::socketpair(libc::AF_UNIX, kind | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) };
		if rc != 0 {
			return Err(failed("socketpair"));
		}
		Ok(unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) })
	};
	let pipe = || -> Result<(File, File), String> {
		let mut fds = [0; 2];
		if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
			return Err(failed("pipe"));
		}
		Ok(unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) })
	};
	// A file for the program, and one to read what it wrote from
	let file = |how: &str| -> Result<(File, File), String> {
		let name = scratch.join(format!("stream-{}", NEXT.fetch_add(1, Ordering::SeqCst)));
		let mut open = std::fs::OpenOptions::new();
		match how {
			"appended file" => open.append(true).create(true),
			"write-only file" => open.write(true).create(true),
			_ => open.read(true).write(true).create(true),
		};
		let one = open.open(&name).map_err(|e| e.to_string())?;
		let other = File::open(&name).map_err(|e| e.to_string())?;
		std::fs::remove_file(&name).map_err(|e| e.to_string())?;
		Ok((one, other))
	};
	let mut c = command(inv);
	let mut kept: Vec<File> = Vec::new();
	let opened = |name: &Path| File::open(name).map(Stdio::from).map_err(|e| format!("{}: {e}", name.display()));
	c.stdin(match input {
		"zero" => opened(Path::new("/dev/zero"))?,
		"random" => opened(Path::new("/dev/urandom"))?,
		"full" => opened(Path::new("/dev/full"))?,
		"directory" => opened(scratch)?,
		"executable" => opened(exe())?,
		"file" | "write-only file" => file(input)?.0.into(),
		"pipe" => {
			let (reading, writing) = pipe()?;
			kept.push(writing);
			reading.into()
		}
		"closed pipe" => pipe()?.0.into(),
		"socket" => {
			let (one, other) = pair(libc::SOCK_STREAM)?;
			kept.push(other);
			one.into()
		}
		"memory" => memfd()?.into(),
		"anonymous" => {
			let fd = unsafe { libc::eventfd(0, libc::EFD_CLOEXEC) };
			if fd < 0 {
				return Err(failed("eventfd"));
			}
			unsafe { File::from_raw_fd(fd) }.into()
		}
		_ => Stdio::null(),
	});
	if input == "closed" {
		unsafe {
			c.pre_exec(|| {
				libc::close(0);
				Ok(())
			});
		}
	}
	let place = |kind: &str| -> Result<(File, File), String> {
		match kind {
			"pipe" => pipe().map(|(reading, writing)| (writing, reading)),
			"socket" => pair(libc::SOCK_STREAM),
			"datagrams" => pair(libc::SOCK_SEQPACKET),
			"memory" => {
				let one = memfd()?;
				let other = File::open(format!("/proc/self/fd/{}", std::os::fd::AsRawFd::as_raw_fd(&one))).map_err(|e| e.to_string())?;
				Ok((one, other))
			}
			_ => file(kind),
		}
	};
	let (out, out_seen) = place(output)?;
	let err = if error == "same" {
		c.stderr(out.try_clone().map_err(|e| e.to_string())?);
		None
	} else {
		let (err, err_seen) = place(error)?;
		c.stderr(err);
		Some(err_seen)
	};
	c.stdout(out);
	let mut child = c.spawn().map_err(|e| format!("spawn: {e}"))?;
	drop(c);
	RUNS.fetch_add(1, Ordering::Relaxed);
	let pid = child.id();
	limit(pid as i32, libc::RLIMIT_CPU, CPU_LIMIT);
	limit(pid as i32, libc::RLIMIT_CORE, 0);
	let running = RUNNING.get().unwrap();
	running.lock().unwrap().insert(pid, Instant::now());
	// What's in a file is read when the program has ended
	let streams = |kind: &str| matches!(kind, "pipe" | "socket" | "datagrams");
	let read = |mut f: File| {
		let mut all = Vec::new();
		let mut buf = vec![0; 1 << 16];
		while let Ok(n) = std::io::Read::read(&mut f, &mut buf) {
			if n == 0 {
				break;
			}
			all.extend(&buf[..n]);
		}
		all
	};
	let (stdout, stderr, status) = std::thread::scope(|scope| {
		let early = |f: File, kind: &str| if streams(kind) { (Some(scope.spawn(move || read(f))), None) } else { (None, Some(f)) };
		let out = early(out_seen, output);
		let err = err.map(|f| early(f, error));
		let status = child.wait();
		let settle = |(thread, file): (Option<std::thread::ScopedJoinHandle<Vec<u8>>>, Option<File>)| match (thread, file) {
			(Some(t), _) => t.join().unwrap_or_default(),
			(_, Some(f)) => read(f),
			_ => Vec::new(),
		};
		(settle(out), err.map(settle).unwrap_or_default(), status)
	});
	running.lock().unwrap().remove(&pid);
	drop(kept);
	let status = status.map_err(|e| format!("wait: {e}"))?;
	if WALL_KILL.load(Ordering::SeqCst) {
		return Err("a run exceeded the wall-clock watchdog".to_owned());
	}
	Ok(Out {
		stdout,
		stderr,
		end: match (status.code(), status.signal()) {
			(Some(code), _) => End::Code(code),
			(None, Some(libc::SIGKILL)) => return Err("a run was killed from outside (out of memory?)".to_owned()),
			(None, s) => End::Signal(s.unwrap_or(0)),
		},
	})
}
