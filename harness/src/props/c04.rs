use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::{count, parse_tlv, same_structure},
	engine::*,
	gen,
	wire::{encode_ingenico, parse_ingenico, Bad, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Recs {
	pub recs:           Vec<Rec>,
	pub last_separator: bool,
}

pub fn check(case: &Recs) -> Checked {
	let text = encode_ingenico(&case.recs, case.last_separator);
	if text.is_empty() || !fits(&text) {
		return seen(false, "empty or too long");
	}
	let masks = ['*'];
	let want = match parse_ingenico(&text, &masks) {
		Ok(nodes) => nodes,
		Err(Bad::Undetermined) => return seen(false, "not determined"),
		Err(e) => {
			return Err(Failure::Infra(format!("the encoder made {e:?} input: {case:?}")));
		}
	};
	if want.len() != case.recs.iter().filter(|r| r.kind == 'T').count() {
		return Err(Failure::Infra(format!("encoder and reference differ: {case:?}")));
	}
	let inv = tlv("ingenico-tlv", &text, &masks, false);
	if !admitted(&want) {
		return seen(false, "a decoded tag refuses its value");
	}
	let out = breakdown(&inv)?;
	let shown = at(&inv, parse_tlv(&out))?;
	at(&inv, same_structure(&want, &shown))?;
	let other = case.recs.iter().any(|r| r.kind != 'T');
	let nested = want.iter().any(|n| !n.kids.is_empty());
	seen_n(
		!want.is_empty() && (want.len() > 1 || other || nested),
		match (want.len(), other, nested) {
			(0, _, _) => "no EMV records",
			(_, true, _) => "with other records",
			(_, _, true) => "with children",
			(1, ..) => "one record",
			_ => "records",
		},
		count(&shown),
	)
}

fn rec(value: Vec<u8>, ascii: bool, len_bytes: u8) -> Rec {
	Rec {
		kind: 'T',
		tag: vec![0xC1].into(),
		len_bytes,
		ascii,
		value: value.into(),
		lower_case: 0,
		separator: ';',
	}
}
fn length_cases() -> Vec<Recs> {
	let mut cases = Vec::new();
	let lengths = (0..=300usize).chain([511, 512, 1000, 4095, 4096, 20000, 50000]);
	for len in lengths {
		for len_bytes in 1..=4 {
			for ascii in [false, true] {
				let value: Vec<u8> = (0..len).map(|i| 0x21 + (i * 5 % 90) as u8).collect();
				let mut recs = vec![rec(value, ascii, len_bytes)];
				if len % 2 == 0 {
					recs.insert(0, rec(vec![1, 2, 3], false, 1));
					recs.push(rec(vec![], ascii, len_bytes));
				}
				cases.push(Recs {
					recs,
					last_separator: len % 3 == 0,
				});
			}
		}
	}
	cases
}
/// Every ASCII character as a separator and as the type of a skipped record.
fn character_cases() -> Vec<Recs> {
	let mut cases = Vec::new();
	for c in (1..0x80u8).map(char::from) {
		for last_separator in [false, true] {
			let mut recs = vec![
				rec(b"abc".to_vec(), true, 1),
				rec(vec![0x12, 0xAB], false, 2),
				rec(vec![], false, 1),
				rec(b"T1:1".to_vec(), true, 1),
			];
			recs.iter_mut().for_each(|r| r.separator = c);
			cases.push(Recs {
				recs: recs.clone(),
				last_separator,
			});
			for at in 0..4 {
				let mut recs = recs.clone();
				recs[at].kind = c;
				recs.iter_mut().for_each(|r| r.separator = ';');
				cases.push(Recs {
					recs,
					last_separator,
				});
			}
		}
	}
	// Every byte value in both cases
	for b in 0..=255u8 {
		for lower_case in [0, 0xFF, 0x55, 0xAA] {
			let mut r = rec(vec![b, b.wrapping_mul(3), 1], false, 1);
			r.lower_case = lower_case;
			let mut named = r.clone();
			named.tag = vec![0, 0x9F, b & 0x7F].into();
			if !gen::is_decoded(&[0x9F, b & 0x7F]) {
				cases.push(Recs {
					recs:           vec![r.clone(), named],
					last_separator: false,
				});
			}
			if (1..0x80).contains(&b) {
				cases.push(Recs {
					recs:           vec![r, rec(vec![b, b'x'], true, 1)],
					last_separator: true,
				});
			}
		}
	}
	cases
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rewritten {
	recs:       Vec<Rec>,
	separator:  char,
	lower_case: u8,
	zeros:      u8,
	len_bytes:  u8,
}
/// How records are written makes no difference.
fn check_rewritten(case: &Rewritten) -> Checked {
	let text = encode_ingenico(&case.recs, false);
	let mut again = case.recs.clone();
	for r in &mut again {
		r.separator = case.separator;
		r.lower_case = case.lower_case;
		r.len_bytes = case.len_bytes;
		let mut tag = vec![0; usize::from(case.zeros)];
		tag.extend(&r.tag.0);
		r.tag = tag.into();
	}
	let rewritten = encode_ingenico(&again, true);
	// Masking depends on how a value is written
	let a = tlv("ingenico-tlv", &text, &[], true);
	let b = tlv("ingenico-tlv", &rewritten, &[], true);
	if !fits(&rewritten) || matches!(parse_ingenico(&text, &[]), Err(Bad::Undetermined)) {
		return seen(false, "not determined");
	}
	let (ra, rb) = (answer(&a)?, answer(&b)?);
	if ra != rb {
		return Err(format!("differently written records are shown differently: {} and {}", show(&a), show(&b)).into());
	}
	let valid = parse_ingenico(&text, &[]).is_ok_and(|nodes| admitted(&nodes));
	match ra {
		Answer::Diagnostic(_) if valid => {
			Err(format!("valid records were refused: {}", show(&a)).into())
		}
		Answer::Breakdown(_) => seen(text != rewritten, "shown alike"),
		_ => seen(false, "refused alike"),
	}
}

/// As many records as fit.
fn vast() -> Vec<Recs> {
	let mut cases = Vec::new();
	for (i, n) in VERY_MANY.iter().filter(|n| **n < 14_950).enumerate() {
		for other in [false, true] {
			let recs = (0..*n)
				.map(|j| {
					let mut r = rec(vec![], (i + j) % 3 == 0, 1);
					r.tag = vec![[0x5A, 0xC1, 0x50][(i + j) % 3]].into();
					if other && j % 2 == 0 {
						r.kind = 'C';
					}
					r
				})
				.collect();
			cases.push(Recs {
				recs,
				last_separator: i % 2 == 0,
			});
		}
	}
	cases
}
/// Every depth there is, within a record and as a value's bytes.
fn depths() -> Vec<Recs> {
	(1..=crate::wire::MAX_DEPTH)
		.map(|n| {
			let mut value = vec![0x5A, 1, 0x77, 0xC1, 0];
			for _ in 1..n {
				let mut v = vec![0xE1];
				crate::wire::encode_length(value.len(), 0, &mut v);
				v.extend(value);
				value = v;
			}
			let mut r = rec(value, false, 2);
			r.tag = vec![0x77].into();
			Recs {
				recs: vec![r, rec(vec![1], false, 1)],
				last_separator: n % 2 == 0,
			}
		})
		.collect()
}

/// Records of the same few tags among any number of records of other types.
fn among_others() -> BoxedStrategy<Recs> {
	let one = (0..6usize, 0..5usize, any::<bool>(), any::<bool>(), 0..4usize, prop_oneof![Just(';'), Just(','), gen::separator()]).prop_map(
		|(tag, kind, emv, ascii, len, separator)| {
			let tags = [&[0x50][..], &[0x5A], &[0xC1], &[0x9F, 0x1E], &[0xDF, 0x01], &[0x77]];
			let mut r = rec(b"ABC"[..len.min(3)].to_vec(), ascii, 1);
			r.tag = tags[tag].to_vec().into();
			if tag == 5 {
				r.ascii = false;
				r.value = [vec![], vec![0xC1, 0], vec![0x5A, 1, 9], vec![0xC1, 0, 0xC1, 0]][len].clone().into();
			}
			r.separator = separator;
			if !emv {
				r.kind = ['S', 'C', 'D', 'I', 't'][kind];
			}
			r
		},
	);
	(vec(one, 2..16), any::<bool>())
		.prop_map(|(recs, last_separator)| Recs {
			recs,
			last_separator,
		})
		.boxed()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.random("among-others", 15_000, among_others, check);
	ctx.each("vast", true, &vast(), check);
	ctx.each("every-depth", true, &depths(), check);
	ctx.each("lengths", true, &length_cases(), check);
	ctx.each("characters", true, &character_cases(), check);
	ctx.random(
		"records",
		70_000,
		|| {
			(gen::recs(8, 300), any::<bool>())
				.prop_map(|(recs, last_separator)| Recs {
					recs,
					last_separator,
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"many-records",
		1_000,
		|| {
			(vec(gen::rec(12), 20..400), any::<bool>())
				.prop_map(|(mut recs, last_separator)| {
					// (most of these would refuse some text or other)
					recs.retain(|r| {
						let start = r.tag.iter().position(|b| *b != 0).unwrap_or(0);
						!r.ascii || !gen::is_decoded(&r.tag[start..])
					});
					Recs {
						recs,
						last_separator,
					}
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"long-values",
		1_000,
		|| {
			(vec(gen::rec(20), 0..3), gen::rec(2), prop_oneof![300usize..5_000, 5_000usize..50_000, 65_000usize..66_000, 50_000usize..130_000], any::<u8>(), any::<bool>())
				.prop_map(|(mut recs, mut long, len, fill, last_separator)| {
					long.value = (0..len).map(|i| (i / 7) as u8 ^ fill).map(|b| if long.ascii { (b & 0x7F).max(1) } else { b }).collect::<Vec<u8>>().into();
					let at = recs.len() / 2;
					if !gen::is_decoded(&long.tag) {
						recs.insert(at, long);
					}
					Recs {
						recs,
						last_separator,
					}
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"deep",
		600,
		|| {
			gen::chain(200)
				.prop_map(|objs| Recs {
					recs: objs
						.iter()
						.map(|o| Rec {
							kind: 'T',
							tag: o.tag.clone(),
							len_bytes: 0,
							ascii: false,
							value: o.value().into(),
							lower_case: 0,
							separator: ';',
						})
						.collect(),
					last_separator: false,
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"rewritten",
		25_000,
		|| {
			(gen::recs(5, 60), gen::separator(), any::<u8>(), 0u8..4, 1u8..=4)
				.prop_map(|(recs, separator, lower_case, zeros, len_bytes)| Rewritten {
					recs,
					separator,
					lower_case,
					zeros,
					len_bytes,
				})
				.boxed()
		},
		check_rewritten,
	);
	ctx.finish(
		"Lists of records with random types, tags (with leading zero bytes), length widths, hex \
		 case, data formats, values and separators; every length up to 300, every ASCII separator \
		 and record type and every hex byte in four casings; the breakdown is read back and \
		 compared with the type T records; and repeats of few tags among records of other types. Non-trivial: at least one type T record together with \
		 another record or with children.",
		&[
			"NUL can't be given on a command line",
			"empty length fields are outside the property",
		],
	)
}
