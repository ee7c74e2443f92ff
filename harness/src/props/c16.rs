use proptest::{collection::vec, prelude::*, sample::select};

use crate::{
	company,
	common::*,
	display::Shown,
	engine::*,
	gen,
	spec::{self, Decoded},
	wire::Hex,
};

const TAGS: &[&[u8]] = &[&[0x8A], &[0x9C], &[0x9F, 0x39], &[0x9F, 0x35]];

fn judge(tag: &[u8], value: &[u8], s: &Shown) -> Result<(), String> {
	if spec::decode(tag, value) == Decoded::RefusedOrAnnotated {
		return match (&s.parsed, s.name.as_str()) {
			(None, spec::ARC_UNRECOGNISED) => Ok(()),
			_ => Err(format!("shown as {:?}, decoded as {:?}", s.name, s.parsed)),
		};
	}
	decoded_as_due(tag, value, s)
}

/// Everything in the batch is accepted, or the first that's refused decides.
fn check(case: &Batch) -> Checked {
	let mut refused = None;
	let mut either = false;
	let mut meant = false;
	for (t, v) in &case.values {
		match spec::decode(t, v) {
			Decoded::Refused(d) => refused = refused.or(Some(d)),
			Decoded::RefusedOrAnnotated => either = true,
			Decoded::Lines(_) => meant = true,
			Decoded::Annotated(_) | Decoded::Plain => {}
		}
	}
	let inv = ber(&case.bytes(), &[], false);
	match (refused, either) {
		(Some(d), false) => {
			refused_as(&inv, &d)?;
			seen(true, "refused")
		}
		(Some(_), true) => {
			refusal(&inv)?;
			seen(true, "refused")
		}
		(None, true) => match answer(&inv)? {
			Answer::Diagnostic(_) => seen(true, "no text, refused"),
			Answer::Silent => Err(format!("neither a breakdown nor a diagnostic: {}", show(&inv)).into()),
			Answer::Breakdown(_) => {
				let n = case.judge(judge)?;
				seen_n(true, "no text, annotated", n)
			}
		},
		(None, false) => {
			let n = case.judge(judge)?;
			seen_n(true, if meant { "with a meaning" } else { "annotated" }, n)
		}
	}
}

fn every_response_code() -> Vec<Batch> {
	let mut values = Vec::new();
	for a in 0..0x80u8 {
		for b in 0..0x80u8 {
			values.push((vec![0x8A], vec![a, b]));
		}
	}
	batches(&values, 60)
}
fn every_byte() -> Vec<Batch> {
	let mut cases = Vec::new();
	for tag in &TAGS[1..] {
		let mut shown = Vec::new();
		for code in 0..=255u8 {
			let pair = (tag.to_vec(), vec![code]);
			if matches!(spec::decode(tag, &[code]), Decoded::Refused(_)) {
				cases.push(Batch::new(vec![pair.clone()]));
				let mut nested = Batch::new(vec![(vec![0x9C], vec![0]), pair, (vec![0x8A], b"00".to_vec())]);
				nested.wraps = code % 4;
				cases.push(nested);
			} else {
				shown.push(pair);
			}
		}
		cases.extend(batches(&shown, 32));
		for pair in shown {
			cases.push(Batch::new(vec![pair]));
		}
	}
	cases
}
/// Codes in front of, behind and inside codes of the wrong size.
fn sizes() -> Vec<Batch> {
	let mut cases = Vec::new();
	for tag in TAGS {
		for len in (0..40).chain([127, 128, 129, 255, 256, 257, 258, 512, 513, 514]) {
			for fill in [0u8, 0x05, 0x30, 0x91] {
				for wraps in [0, 2] {
					let mut b = Batch::new(vec![(tag.to_vec(), vec![fill; len])]);
					b.wraps = wraps;
					cases.push(b);
				}
			}
		}
	}
	cases
}
fn among_many() -> Vec<Batch> {
	let mut values = vec![
		(vec![0x8A], b"00".to_vec()),
		(vec![0x8A], b"Y1".to_vec()),
		(vec![0x8A], b"zz".to_vec()),
		(vec![0x8A], vec![0x30]),
	];
	for tag in &TAGS[1..] {
		// (some of which are assigned, some not)
		for value in [vec![], vec![0], vec![0x01], vec![0x05], vec![0x21], vec![0x22], vec![0x91], vec![0xFF], vec![0, 0]] {
			values.push((tag.to_vec(), value));
		}
	}
	crowded(&values)
}
/// All codes written another way.
fn rewritten(thorough: bool) -> Vec<Batch> {
	let mut values: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
	for tag in &TAGS[1..] {
		for code in 0..=255u8 {
			let mut forms: Vec<Vec<u8>> = vec![
				format!("{code:02X}").into_bytes(),
				format!("{code:02x}").into_bytes(),
				format!("{code:X}").into_bytes(),
				format!("{code}").into_bytes(),
				format!("{code:02}").into_bytes(),
				format!("{code:03}").into_bytes(),
				format!("{code:04}").into_bytes(),
				format!("{code:04X}").into_bytes(),
				format!("0x{code:02X}").into_bytes(),
				format!("{code:08b}").into_bytes(),
				vec![code >> 4, code & 15],
				vec![code & 15, code >> 4],
				vec![code >> 4 | 0xF0, code & 15 | 0xF0],
				vec![code, code],
				vec![code, code, code],
				vec![code, !code],
				vec![1, code],
				vec![0, 1, code],
				vec![0x81, 1, code],
				[*tag, &[code]].concat(),
				[*tag, &[1, code]].concat(),
				vec![0x22, code, 0x22],
				vec![code, b'\r', b'\n'],
			];
			for pad in [0u8, 0xFF, b' ', b'0', 0x0F, 0xF0, 0x80, b'\n', b'F', 0x01] {
				for n in 1..4 {
					forms.push([vec![code], vec![pad; n]].concat());
					forms.push([vec![pad; n], vec![code]].concat());
				}
			}
			values.extend(forms.into_iter().filter(|f| f.len() != 1 || code % 5 == 0).map(|f| (tag.to_vec(), f)));
		}
		// All of two bytes, or a part of them
		for n in 0..=0xFFFFu16 {
			let [a, b] = n.to_be_bytes();
			let digits = a.is_ascii_hexdigit() && b.is_ascii_hexdigit();
			if thorough || digits || (u32::from(n) * 40_503 >> 8) % 19 == 0 {
				values.push((tag.to_vec(), vec![a, b]));
			}
		}
	}
	for (code, _) in spec::RESPONSE_CODES.iter().chain(&[("Y1", ""), ("Z3", ""), ("99", "")]) {
		let (a, b) = (code.as_bytes()[0], code.as_bytes()[1]);
		let mut forms = vec![
			vec![a & 15, b & 15],
			vec![(a & 15) << 4 | b & 15],
			vec![0, (a & 15) << 4 | b & 15],
			vec![(a & 15) * 10 + (b & 15)],
			hex_text(code),
			vec![0, a, 0, b],
			vec![a, 0, b, 0],
			vec![a, b, a, b],
			vec![b, a],
			vec![2, a, b],
			vec![0x8A, 2, a, b],
			vec![0xF0 | a & 15, 0xF0 | b & 15],
			vec![a | 0x80, b | 0x80],
			vec![b'"', a, b, b'"'],
			vec![a],
			vec![b],
		];
		for pad in [0u8, b' ', b'0', 0xFF, b'\n', b'F', 0x80] {
			for n in 1..5 {
				forms.push([vec![a, b], vec![pad; n]].concat());
				forms.push([vec![pad; n], vec![a, b]].concat());
			}
		}
		values.extend(forms.into_iter().map(|f| (vec![0x8A], f)));
	}
	values.into_iter().map(|v| Batch::new(vec![v])).collect()
}
fn hex_text(code: &str) -> Vec<u8> {
	code.bytes().map(|b| format!("{b:02X}")).collect::<String>().into_bytes()
}
fn not_ascii() -> Vec<Batch> {
	let mut cases = Vec::new();
	for a in 0..=255u8 {
		for b in [0x30u8, 0x80, 0xA9, 0xBF, 0xFF] {
			for v in [[a, b], [b, a]] {
				if !v.is_ascii() {
					cases.push(Batch::new(vec![(vec![0x8A], v.to_vec())]));
				}
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-response-code", true, &every_response_code(), check);
	ctx.each("every-one-byte-code", true, &every_byte(), check);
	ctx.each("sizes", true, &sizes(), check);
	ctx.each("among-many", true, &among_many(), check);
	ctx.each("rewritten", true, &rewritten(ctx.thorough), check);
	ctx.each("responses-not-ascii", false, &not_ascii(), check);
	ctx.random(
		"mixed",
		40_000,
		|| {
			let coded = prop_oneof![
				6 => select(TAGS.to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))),
				2 => "[0-9A-Za-z]{2}".prop_map(|s| (vec![0x8A], s.into_bytes())),
				1 => "[0-9A-Z ]{0,4}".prop_map(|s| (vec![0x8A], s.into_bytes())),
				1 => any::<u8>().prop_map(|b| (vec![0x9C], vec![b])),
			];
			let odd = prop_oneof![
				2 => (select(TAGS[2..].to_vec()), any::<u8>()).prop_map(|(t, b)| (t.to_vec(), vec![b])),
				1 => (select(TAGS.to_vec()), gen::bytes(6)).prop_map(|(t, v)| (t.to_vec(), v)),
			];
			(gen::wraps(), vec(coded, 1..12), proptest::option::weighted(0.3, odd), any::<proptest::sample::Index>())
				.prop_map(|(wraps, mut values, odd, at)| {
					if let Some(o) = odd {
						values.insert(at.index(values.len() + 1), o);
					}
					Batch {
						wraps,
						values: values.into_iter().map(|(t, v)| (Hex(t), Hex(v))).collect(),
					}
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy(select(TAGS.to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))).boxed()),
		company::check(TAGS, judge),
	);
	ctx.finish(
		"Response codes: all 16,384 pairs of ASCII characters and a spread of others; all 256 \
		 transaction types, entry modes and terminal types; sizes up to 514 bytes; all codes written another way (as text, doubled, padded, packed or not), and a part of all values of two bytes (thorough: all); alone, in \
		 company and nested. Compared with the code tables of the specifications the program \
		 cites (ISO 8583 responses, EMV Book 4, EMV tag annexes). The same within random whole transactions in either format. Non-trivial: all.",
		&["a response code that's no ASCII text may be refused or annotated"],
	)
}
