use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	engine::*,
	gen,
	spec,
	wire::{encode_block, hex, parse_ber, Bad, Body, Hex, Obj, MAX_DEPTH},
};

fn depth(objs: &[Obj]) -> usize {
	objs.iter()
		.map(|o| match &o.body {
			Body::Bytes(_) => 0,
			Body::Kids(kids) => 1 + depth(kids),
		})
		.max()
		.unwrap_or(0)
}
/// The breakdown, if one is due.
fn shown(bytes: &[u8], masks: &[char]) -> Result<Option<String>, Failure> {
	if bytes.len() > 55_000 {
		return Ok(None);
	}
	if bytes.is_empty() {
		// Can't be asked for
		return Ok(Some(String::new()));
	}
	match parse_ber(bytes, masks) {
		Ok(nodes) if admitted(&nodes) => {
			breakdown(&ber(bytes, masks, false)).map(Some)
		}
		Ok(_) | Err(Bad::Undetermined) => Ok(None),
		Err(e) => Err(Failure::Infra(format!("the encoder made {e:?} input: {}", hex(bytes)))),
	}
}
fn same(want: &str, got: &str, what: &str, bytes: &[u8]) -> Result<(), Failure> {
	let split = |s: &str| s.split('\n').map(str::to_owned).collect::<Vec<_>>();
	same_lines(&split(want), &split(got))
		.map_err(|e| Failure::from(format!("{what}: {e}: {}", show(&ber(bytes, &[], false)))))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Join {
	a: Vec<Obj>,
	b: Vec<Obj>,
	#[serde(default)]
	masks: Vec<char>,
}
fn check_join(case: &Join) -> Checked {
	let (a, b) = (encode_block(&case.a), encode_block(&case.b));
	let both = [&a[..], &b].concat();
	let (Some(out_a), Some(out_b), Some(out)) = (shown(&a, &case.masks)?, shown(&b, &case.masks)?, shown(&both, &case.masks)?) else {
		return seen(false, "refused, not determined or too long");
	};
	let want = match (out_a.is_empty(), out_b.is_empty()) {
		(true, _) => out_b,
		(_, true) => out_a,
		_ => format!("{out_a}\n{out_b}"),
	};
	same(&want, &out, "two blocks joined", &both)?;
	seen_n(!a.is_empty() && !b.is_empty(), "joined", case.a.len() + case.b.len())
}

/// Objects of one kind in a row, compared with one of them alone, by rule.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Row {
	kind: usize,
	n:    usize,
}
const ROW_MASKS: [char; 1] = ['*'];
const ROWS: &[(&[u8], &[u8])] = &[
	(&[0x5A], &[]),
	(&[0xE1], &[]),
	(&[0xDF, 0x7A], &[]),
	(&[0x5A], &[0x41]),
	(&[0x50], &[0x41; 17]),
	(&[0x70], &[0x5A, 0x00]),
	(&[0x70], &[0x5A, 0x00, 0x5A, 0x00]),
	(&[0x70], &[0x5A, 0x09]),
	(&[0x95], &[0; 5]),
	(&[0x95], &[0x80, 0, 0x10, 0, 0x08]),
	(&[0x9F, 0x34], &[0x1E, 3, 1]),
	(&[0x8E], &[0, 0, 0, 1, 0, 0, 0, 0, 0x41, 3]),
	(&[0x5F, 0x30], &[0x02, 0x01]),
	(&[0x8A], b"00"),
	(&[0x5A], b"**"),
	(&[0x70], b"***"),
	(&[0xE1], &[0x5A, 2, b'*', b'*', 0x5A, 0]),
];
fn check_row(case: &Row) -> Checked {
	let (tag, value) = ROWS[case.kind % ROWS.len()];
	let one = encode_block(&[Obj::bytes(tag, value)]);
	let all = one.repeat(case.n);
	let Some(alone) = shown(&one, &ROW_MASKS)? else {
		return Err(Failure::Infra("a row's object is refused".to_owned()));
	};
	let want = vec![alone; case.n].join("\n");
	let Some(got) = shown(&all, &ROW_MASKS)? else {
		return seen(false, "too long");
	};
	same(&want, &got, "a row of objects", &all)?;
	// Within an object
	let mut bytes = vec![0xE2];
	crate::wire::encode_length(all.len(), 0, &mut bytes);
	bytes.extend(&all);
	if let Some(got) = shown(&bytes, &ROW_MASKS)? {
		same(&wrapped(&[0xE2], &all, &want), &got, "a row within an object", &bytes)?;
	}
	seen_n(case.n > 1, "row", case.n)
}

/// Some of [`gen::notable`], by number, compared with each alone, by rule.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Company {
	which: Vec<usize>,
	/// Numbers of those that stand within an object of their own.
	#[serde(default)]
	within: Vec<usize>,
	/// What stands first.
	#[serde(default)]
	first: Option<Obj>,
}
fn notable() -> &'static Vec<(Vec<u8>, Option<String>)> {
	static ALL: std::sync::OnceLock<Vec<(Vec<u8>, Option<String>)>> = std::sync::OnceLock::new();
	ALL.get_or_init(|| {
		gen::notable()
			.iter()
			.map(|o| {
				let bytes = encode_block(std::slice::from_ref(o));
				let alone = shown(&bytes, &ROW_MASKS).ok().flatten();
				(bytes, alone)
			})
			.collect()
	})
}
fn check_company(case: &Company) -> Checked {
	let all = notable();
	let (mut bytes, mut want) = (Vec::new(), Vec::new());
	if let Some(first) = &case.first {
		bytes = encode_block(std::slice::from_ref(first));
		let Some(alone) = shown(&bytes, &ROW_MASKS)? else {
			return seen(false, "refused");
		};
		want.push(alone);
	}
	for i in &case.which {
		let (one, Some(alone)) = &all[*i % all.len()] else {
			continue;
		};
		if case.within.contains(i) {
			bytes.push(0xE2);
			crate::wire::encode_length(one.len(), 0, &mut bytes);
			want.push(wrapped(&[0xE2], one, alone));
		} else {
			want.push(alone.clone());
		}
		bytes.extend(one);
	}
	let Some(got) = shown(&bytes, &ROW_MASKS)? else {
		return seen(false, "too long");
	};
	same(&want.join("\n"), &got, "objects in company", &bytes)?;
	seen_n(want.len() > 1, "company", want.len())
}
/// Each one before all that have another tag.
fn each_before_all() -> Vec<Company> {
	let objs = gen::notable();
	(0..objs.len())
		.map(|i| {
			let others = (0..objs.len()).filter(|j| objs[*j].tag.0 != objs[i].tag.0);
			Company {
				which:  std::iter::once(i).chain(others).collect(),
				within: if i % 3 == 1 { vec![i] } else { vec![] },
				first:  None,
			}
		})
		.chain(gen::every_short().into_iter().map(|first| Company {
			which:  (0..objs.len()).filter(|j| objs[*j].tag.0 != first.tag.0).collect(),
			within: vec![],
			first:  Some(first),
		}))
		.collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrap {
	objs: Vec<Obj>,
	/// Constructed tags and length forms, innermost first.
	tags: Vec<(Hex, u8)>,
	#[serde(default)]
	masks: Vec<char>,
}
fn hex_dump(bytes: &[u8], indent: &str) -> String {
	let mut s = String::new();
	for line in bytes.chunks(16) {
		let cells: String = line.iter().map(|b| format!("{b:02X} ")).collect();
		let text: String = line
			.iter()
			.map(|b| if matches!(b, 0x20..=0x7E) { char::from(*b) } else { '.' })
			.collect();
		s.push_str(&format!("{indent}{cells:<48} {text}\n"));
	}
	s
}
fn wrapped(tag: &[u8], value: &[u8], inner: &str) -> String {
	let mut s = format!(
		"Tag: 0x{} - {} {} - {}\n",
		hex(tag),
		value.len(),
		if value.len() == 1 { "byte" } else { "bytes" },
		spec::tag_name(tag).unwrap_or(spec::UNKNOWN_NAME)
	);
	if !value.is_empty() {
		s.push_str("Raw:\n");
		s.push_str(&hex_dump(value, "\t"));
	}
	if !inner.is_empty() {
		s.push_str("Constructed Data Object's Child Tags:\n");
		for line in inner.lines() {
			if !line.is_empty() {
				s.push('\t');
				s.push_str(line);
			}
			s.push('\n');
		}
	}
	s
}
/// The levels at either end, and a few between, are checked against the block
/// alone, wrapped by rule.
fn check_wrap(case: &Wrap) -> Checked {
	if depth(&case.objs) + case.tags.len() > MAX_DEPTH {
		return seen(false, "too deep");
	}
	let mut bytes = encode_block(&case.objs);
	let n = case.tags.len();
	let Some(mut want) = shown(&bytes, &case.masks)? else {
		return seen(false, "refused, not determined or too long");
	};
	let mut judged = 0;
	for (i, (tag, form)) in case.tags.iter().enumerate() {
		let value = std::mem::take(&mut bytes);
		if value.len() > 1 && value.iter().all(|b| *b == value[0]) {
			return seen(false, "may be masked as a whole");
		}
		bytes.extend(&tag.0);
		crate::wire::encode_length(value.len(), *form, &mut bytes);
		bytes.extend(&value);
		want = wrapped(tag, &value, &want);
		if i < 2 || i + 2 >= n || i % 25 == 0 {
			let Some(outer) = shown(&bytes, &case.masks)? else {
				return seen(false, "refused, not determined or too long");
			};
			same(&want, &outer, &format!("wrapped {} deep", i + 1), &bytes)?;
			judged += 1;
		}
	}
	seen_n(
		!case.objs.is_empty(),
		match n {
			0..=3 => "wrapped 1-3 deep",
			4..=30 => "wrapped 4-30 deep",
			_ => "wrapped 31-250 deep",
		},
		judged,
	)
}
fn tags(max: usize) -> BoxedStrategy<Vec<(Hex, u8)>> {
	prop::collection::vec(
		(gen::constructed_tag().prop_map(Hex::from), prop_oneof![3 => Just(0u8), 1 => 1u8..=4]),
		1..=max,
	)
	.boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum MaskedCase {
	Wrap(Wrap),
	Join(Join),
}
/// Some of the values masked.
fn masked_block() -> BoxedStrategy<Vec<Obj>> {
	let masked = (gen::any_tag(), prop::sample::select(vec![b'*', b'X']), 2..20usize).prop_map(|(tag, c, n)| Obj::bytes(&tag, &vec![c; n]));
	let leaf = prop_oneof![2 => masked.boxed(), 3 => gen::leaf(20)];
	let node = (gen::constructed_tag(), prop::collection::vec(leaf.clone(), 1..4)).prop_map(|(tag, kids)| Obj::bytes(&tag, &encode_block(&kids)));
	prop::collection::vec(prop_oneof![3 => leaf.boxed(), 1 => node.boxed()], 0..5).boxed()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.random(
		"join",
		30_000,
		|| {
			let block = || prop_oneof![6 => gen::block(5, 2, 100), 1 => Just(vec![])];
			(block(), block(), prop_oneof![1 => Just(vec![]), 1 => gen::masks(3)]).prop_map(|(a, b, masks)| Join { a, b, masks }).boxed()
		},
		check_join,
	);
	ctx.random(
		"masked",
		12_000,
		|| {
			(masked_block(), masked_block(), tags(3), any::<bool>())
				.prop_map(|(a, b, tags, deep)| {
					let masks = vec!['*', 'X'];
					if deep {
						MaskedCase::Wrap(Wrap { objs: [a, b].concat(), tags, masks })
					} else {
						MaskedCase::Join(Join { a, b, masks })
					}
				})
				.boxed()
		},
		|case: &MaskedCase| match case {
			MaskedCase::Wrap(w) => check_wrap(w),
			MaskedCase::Join(j) => check_join(j),
		},
	);
	ctx.random(
		"join-many",
		1_500,
		|| {
			let block = || prop::collection::vec(gen::leaf(20), 1..80);
			(block(), block()).prop_map(|(a, b)| Join { a, b, masks: vec![] }).boxed()
		},
		check_join,
	);
	ctx.random(
		"join-very-many",
		150,
		|| {
			let block = || prop::collection::vec(gen::leaf(4), 1..1_500).prop_map(|mut objs| {
				objs.retain(|o| o.tag[0] & 0x20 == 0);
				objs
			});
			(block(), block()).prop_map(|(a, b)| Join { a, b, masks: vec![] }).boxed()
		},
		check_join,
	);
	ctx.random(
		"wrap",
		25_000,
		|| {
			(prop_oneof![6 => gen::block(4, 2, 100), 1 => Just(vec![])], tags(3))
				.prop_map(|(objs, tags)| Wrap { objs, tags, masks: vec![] })
				.boxed()
		},
		check_wrap,
	);
	ctx.random(
		"wrap-deep",
		900,
		|| {
			(gen::block(2, 1, 12), prop_oneof![2 => tags(60), 3 => tags(249)])
				.prop_map(|(objs, tags)| Wrap { objs, tags, masks: vec![] })
				.boxed()
		},
		check_wrap,
	);
	ctx.each("each-before-all", true, &each_before_all(), check_company);
	ctx.random(
		"company",
		6_000,
		|| {
			(prop::collection::vec(0usize..5_000, 2..60), prop::collection::vec(any::<prop::sample::Index>(), 0..4))
				.prop_map(|(which, within)| {
					let which: Vec<usize> = which.into_iter().map(|i| i % notable().len()).collect();
					let within = within.into_iter().map(|i| which[i.index(which.len())]).collect();
					Company { which, within, first: None }
				})
				.boxed()
		},
		check_company,
	);
	// Rows of objects alike, beside one another
	let rows: Vec<Row> = (0..ROWS.len())
		.flat_map(|kind| (1..=70usize).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1_000, 2_000]).map(move |n| Row { kind, n }))
		.collect();
	ctx.each("rows", true, &rows, check_row);
	let odd: Vec<Wrap> = gen::odd_leaves()
		.chunks(3)
		.map(|objs| Wrap {
			objs: objs.to_vec(),
			tags: vec![(vec![0xE1].into(), 0)],
			masks: vec![],
		})
		.collect();
	ctx.each("odd-values", true, &odd, check_wrap);
	// Every depth there is
	let chain: Vec<Wrap> = (1..MAX_DEPTH)
		.map(|n| Wrap {
			objs: vec![
				Obj::bytes(&[0x9F, 0x7A], &[]),
				Obj::bytes(&[0x5A], &[]),
				Obj::bytes(&[0x5A], b"**"),
				Obj::bytes(&[0x70], b"***"),
				Obj::bytes(&[0x5A], &[]),
				Obj::bytes(&[0x95], &[0x80, 0, 0x10, 0, 0x08]),
				Obj::bytes(&[0x8E], &[0, 0, 0, 1, 0, 0, 0, 0, 0x41, 3]),
				Obj::bytes(&[0x5F, 0x30], &[0x02, 0x01]),
				Obj::bytes(&[0x50], &[0x41; 17]),
				Obj::bytes(&[0x9F, 0x7B], &[]),
				Obj::bytes(&[0x70], &[]),
				Obj::bytes(&[0x8A], b"00"),
			],
			tags: vec![(vec![0xE1].into(), 0); n],
			masks: vec!['*'],
		})
		.collect();
	ctx.each("every-depth", true, &chain, check_wrap);
	ctx.finish(
		"Pairs of blocks, shown apart and joined; and blocks wrapped up to 250 levels deep, each \
		 watched level compared, line for line, with the block alone, wrapped by rule that often; objects with masked values among them; each of some hundred values that say something particular before all those of other tags, and random companies of them. Non-trivial: no block is \
		 empty.",
		&["blocks with values that a decoded tag refuses are skipped"],
	)
}
