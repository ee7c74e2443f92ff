//! Generators.

use std::sync::OnceLock;

use proptest::{
	collection::vec,
	prelude::*,
	sample::{select, Index},
	strategy::{BoxedStrategy, Union},
};

use crate::{
	spec,
	wire::{Body, Hex, Obj, Rec},
};

/// Literals in the current source text: values that code may treat specially.
#[derive(Default)]
pub struct Dictionary {
	pub ints:    Vec<u64>,
	pub strings: Vec<String>,
	pub chars:   Vec<char>,
}
static DICTIONARY: OnceLock<Dictionary> = OnceLock::new();

pub fn dictionary() -> &'static Dictionary {
	DICTIONARY.get_or_init(Dictionary::default)
}

pub fn harvest(root: &std::path::Path) {
	let mut files = Vec::new();
	let mut dirs = vec![root.to_owned()];
	while let Some(dir) = dirs.pop() {
		for entry in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
			let path = entry.path();
			if path.is_dir() {
				dirs.push(path);
			} else if path.extension().is_some_and(|e| e == "rs") {
				files.push(path);
			}
		}
	}
	files.sort();
	let mut d = Dictionary::default();
	for f in files {
		let text = std::fs::read_to_string(f).unwrap_or_default();
		let text = text.split("#[cfg(test)]\nmod").next().unwrap_or("");
		for line in text.lines() {
			let line = line.trim_start();
			if !line.starts_with("//") {
				harvest_line(line, &mut d);
			}
		}
	}
	d.ints.sort_unstable();
	d.ints.dedup();
	d.strings.sort();
	d.strings.dedup();
	d.chars.sort_unstable();
	d.chars.dedup();
	d.chars.retain(|c| *c != '\0');
	DICTIONARY.set(d).ok();
}
fn harvest_line(line: &str, d: &mut Dictionary) {
	let chars: Vec<char> = line.chars().collect();
	let mut i = 0;
	while i < chars.len() {
		let c = chars[i];
		if c == '"' {
			let mut s = String::new();
			i += 1;
			while i < chars.len() && chars[i] != '"' {
				if chars[i] == '\\' {
					i += 1;
				}
				if let Some(c) = chars.get(i) {
					s.push(*c);
				}
				i += 1;
			}
			if !s.is_empty() && s.len() <= 12 && s.is_ascii() {
				d.strings.push(s);
			}
		} else if c == '\'' && chars.get(i + 2) == Some(&'\'') {
			d.chars.push(chars[i + 1]);
			d.ints.push(chars[i + 1] as u64);
			i += 2;
		} else if c.is_ascii_digit()
			&& !(i > 0 && (chars[i - 1].is_alphanumeric() || chars[i - 1] == '_'))
		{
			let start = i;
			while i < chars.len() && (chars[i].is_ascii_alphanumeric() || chars[i] == '_') {
				i += 1;
			}
			let text: String = chars[start..i].iter().filter(|c| **c != '_').collect();
			if let Some(v) = parse_int(&text) {
				d.ints.push(v);
			}
			continue;
		}
		i += 1;
	}
}
fn parse_int(text: &str) -> Option<u64> {
	let mut t = text;
	for suffix in ["usize", "u64", "u32", "u16", "u8", "i64", "i32"] {
		t = t.strip_suffix(suffix).unwrap_or(t);
	}
	if let Some(h) = t.strip_prefix("0x") {
		u64::from_str_radix(h, 16).ok()
	} else if let Some(b) = t.strip_prefix("0b") {
		u64::from_str_radix(b, 2).ok()
	} else {
		t.parse().ok()
	}
}
fn ints_upto(max: u64) -> Vec<u64> {
	let mut v: Vec<u64> = dictionary()
		.ints
		.iter()
		.flat_map(|i| [i.saturating_sub(1), *i, i + 1])
		.filter(|i| *i <= max)
		.collect();
	v.extend([0, 1, 2].iter().filter(|i| **i <= max));
	v.sort_unstable();
	v.dedup();
	v
}

pub fn byte() -> BoxedStrategy<u8> {
	let dict: Vec<u8> = ints_upto(255).iter().map(|i| *i as u8).collect();
	prop_oneof![
		5 => any::<u8>(),
		2 => 0x20u8..0x7F,
		2 => select(vec![
			0u8, 1, 2, 0x0F, 0x1F, 0x20, 0x2A, 0x30, 0x3F, 0x5F, 0x7F, 0x80, 0x81, 0x82, 0x9F, 0xBF, 0xDF, 0xFF
		]),
		2 => select(dict),
	]
	.boxed()
}

/// Lengths of values, mostly short, with all the encoding boundaries.
pub fn length(max: usize) -> BoxedStrategy<usize> {
	let edges: Vec<usize> = [
		0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512,
		1000, 1023, 1024, 2047, 2048, 3000, 4096,
	]
	.into_iter()
	.filter(|l| *l <= max)
	.collect();
	let dict: Vec<usize> = ints_upto(max.min(5000) as u64)
		.iter()
		.map(|i| *i as usize)
		.collect();
	prop_oneof![
		12 => 0usize..=max.min(24),
		3 => 0usize..=max.min(300),
		2 => select(edges),
		1 => select(dict),
	]
	.boxed()
}

pub fn bytes_of(len: usize) -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		6 => vec(byte(), len),
		2 => vec(0x20u8..0x7F, len),
		2 => of_a_class(len),
		1 => byte().prop_map(move |b| vec![b; len]),
		1 => (byte(), byte(), any::<Index>()).prop_map(move |(b, other, at)| {
			let mut v = vec![b; len];
			if len > 0 {
				let at = at.index(len);
				v[at] = other;
			}
			v
		}),
	]
	.boxed()
}
/// Bytes that are all of one kind: digits, letters, BCD, ...
pub fn of_a_class(len: usize) -> BoxedStrategy<Vec<u8>> {
	let bcd: Vec<u8> = (0..=0x99u8).filter(|b| b & 0x0F < 10 && b >> 4 < 10).collect();
	let classes: Vec<Vec<u8>> = vec![
		(b'0'..=b'9').collect(),
		(b'A'..=b'Z').collect(),
		(b'a'..=b'z').collect(),
		(b'A'..=b'Z').chain(b'a'..=b'z').collect(),
		(b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect(),
		(b'0'..=b'9').chain(b'A'..=b'F').collect(),
		(b'0'..=b'9').chain(b'a'..=b'f').collect(),
		(0x21..0x7F).filter(u8::is_ascii_punctuation).collect(),
		bcd,
		vec![b' ', b'\t', b'\r', b'\n'],
		vec![0, 1],
		vec![0, 0xFF],
		vec![b'0', b'1'],
		vec![0, 1, 0x10, 0x11],
		(0..8).map(|b| 1u8 << b).collect(),
		(0..0x20).collect(),
		(0x80..=0xFF).collect(),
		(0xA0..=0xFF).collect(),
		(0..=255).filter(|b| b % 2 == 0).collect(),
	];
	select(classes).prop_flat_map(move |class| vec(select(class), len)).boxed()
}
pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
	length(max).prop_flat_map(bytes_of).boxed()
}
pub fn ascii_text(max: usize) -> BoxedStrategy<Vec<u8>> {
	length(max)
		.prop_flat_map(|n| vec(prop_oneof![8 => 0x20u8..0x7F, 1 => 1u8..0x80], n))
		.boxed()
}

// Tags

pub fn named_tag() -> BoxedStrategy<Vec<u8>> {
	let all: Vec<Vec<u8>> = spec::TAGS.iter().map(|(t, _)| t.to_vec()).collect();
	select(all).boxed()
}
pub fn decoded_tag() -> BoxedStrategy<Vec<u8>> {
	let all: Vec<Vec<u8>> = spec::DECODED_TAGS.iter().map(|t| t.to_vec()).collect();
	select(all).boxed()
}
/// Any legal tag, mostly of 1 to 6 bytes, sometimes of up to 40.
pub fn any_tag() -> BoxedStrategy<Vec<u8>> {
	let last = || prop_oneof![20 => 1u8..0x80, 1 => Just(0)];
	let middle = || prop_oneof![20 => 0x80u8..=0xFF, 1 => Just(0x80)];
	let one = (0u8..=0xFF).prop_map(|b| vec![if b & 0x1F == 0x1F { b & !1 } else { b }]);
	let start = (0u8..8).prop_map(|b| b << 5 | 0x1F);
	let between = prop_oneof![24 => vec(middle(), 0..=4), 1 => vec(middle(), 5..=38)];
	let many = (start, between, last()).prop_map(|(first, mid, last)| {
		let mut tag = vec![first];
		tag.extend(mid);
		tag.push(last);
		tag
	});
	prop_oneof![3 => one, 3 => many].boxed()
}
pub fn primitive(mut tag: Vec<u8>) -> Vec<u8> {
	tag[0] &= !0x20;
	tag
}
pub fn constructed(mut tag: Vec<u8>) -> Vec<u8> {
	tag[0] |= 0x20;
	tag
}
pub fn constructed_tag() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		2 => select(vec![
			vec![0x61u8], vec![0x6F], vec![0x70], vec![0x71], vec![0x72], vec![0x73], vec![0x77],
			vec![0xA5], vec![0xBF, 0x0C], vec![0xE0], vec![0xFF, 0x01],
		]),
		2 => any_tag().prop_map(constructed),
	]
	.boxed()
}

// Values of decoded tags

pub fn valid_value(tag: &[u8]) -> BoxedStrategy<Vec<u8>> {
	let field = |n: usize| {
		prop_oneof![
			4 => vec(any::<u8>(), n),
			2 => vec(byte(), n),
			2 => vec((0u32..8).prop_map(|b| 1u8 << b), n),
			2 => (any::<Index>(), any::<Index>()).prop_map(move |(a, b)| {
				let mut v = vec![0u8; n];
				for i in [a.index(n * 8), b.index(n * 8)] {
					v[i / 8] |= 1 << (i % 8);
				}
				v
			}),
		]
	};
	match tag {
		[0x95] | [0x9F, 0x0D..=0x0F] | [0x9F, 0x40] => field(5).boxed(),
		[0x9B] => field(2).boxed(),
		[0x9F, 0x33] => field(3).boxed(),
		[0x9F, 0x34] => (cv_rule(), 0u8..=2)
			.prop_map(|(r, c)| vec![r[0], r[1], c])
			.boxed(),
		[0x8E] => cvm_list(14),
		[0x9F, 0x10] => prop_oneof![3 => ccd_iad(), 1 => bytes(40)].boxed(),
		[0x5F, 0x30] => (0u16..1000)
			.prop_map(|n| vec![(n / 100) as u8, ((n / 10 % 10) << 4 | n % 10) as u8])
			.boxed(),
		[0x8A] => prop_oneof![
			6 => select(spec::RESPONSE_CODES.iter().map(|(c, _)| c.as_bytes().to_vec()).collect::<Vec<_>>()),
			3 => vec(0x30u8..0x3A, 2),
			2 => vec(0x20u8..0x7F, 2),
			1 => vec(0u8..0x80, 2),
		]
		.boxed(),
		[0x9C] => prop_oneof![
			select(spec::TRANSACTION_TYPES.iter().map(|(c, _)| vec![*c]).collect::<Vec<_>>()),
			vec(any::<u8>(), 1)
		]
		.boxed(),
		[0x9F, 0x39] => {
			select(spec::ENTRY_MODES.iter().map(|(c, _)| vec![*c]).collect::<Vec<_>>()).boxed()
		}
		[0x9F, 0x35] => {
			select(spec::TERMINAL_TYPES.iter().map(|(c, _)| vec![*c]).collect::<Vec<_>>()).boxed()
		}
		_ => bytes(8),
	}
}
pub fn cv_rule() -> BoxedStrategy<[u8; 2]> {
	let methods: Vec<u8> = spec::CVM_METHODS.iter().map(|(c, _)| *c).collect();
	prop_oneof![
		3 => (select(methods), 0u8..4, 0u8..10).prop_map(|(m, high, c)| [m | high << 6, c]),
		2 => any::<[u8; 2]>(),
	]
	.boxed()
}
pub fn amount() -> BoxedStrategy<u32> {
	let dict: Vec<u32> = ints_upto(u64::from(u32::MAX))
		.iter()
		.map(|i| *i as u32)
		.collect();
	let edges: Vec<u32> = (0..10u32)
		.flat_map(|p| {
			let t = 10u32.pow(p);
			[t - 1, t, t + 1, t.saturating_mul(5)]
		})
		.chain((0..32).flat_map(|b| [1u32 << b, (1u32 << b) - 1]))
		.chain([u32::MAX, u32::MAX - 1])
		.collect();
	prop_oneof![
		4 => Just(0u32),
		3 => any::<u32>(),
		3 => select(edges),
		2 => 0u32..100_000,
		1 => select(dict),
	]
	.boxed()
}
pub fn cvm_list(max_rules: usize) -> BoxedStrategy<Vec<u8>> {
	(amount(), amount(), vec(cv_rule(), 0..=max_rules))
		.prop_map(|(x, y, rules)| {
			let mut v = x.to_be_bytes().to_vec();
			v.extend(y.to_be_bytes());
			v.extend(rules.into_iter().flatten());
			v
		})
		.boxed()
}
pub fn ccd_iad() -> BoxedStrategy<Vec<u8>> {
	// Mostly each part on its own
	let parts = (bytes_of(8), bytes_of(8), bytes_of(16)).prop_map(|(a, b, c)| [a, b, c].concat());
	(prop_oneof![1 => vec(byte(), 32), 1 => parts], select(vec![0xA5u8, 0xA6]))
		.prop_map(|(mut v, cci)| {
			v[0] = 15;
			v[16] = 15;
			v[1] = cci;
			v
		})
		.boxed()
}

// Objects

/// An object whose value its tag admits. (unless it's masked, or another tag's
/// object comes out of what's not meant to be a constructed value)
pub fn leaf(max_len: usize) -> BoxedStrategy<Obj> {
	let form = prop_oneof![5 => Just(0u8), 3 => 1u8..=4];
	let plain = |tag: BoxedStrategy<Vec<u8>>, max_len: usize| {
		(tag, bytes(max_len)).prop_map(|(tag, value)| (tag, value))
	};
	let decoded = decoded_tag()
		.prop_flat_map(|tag| {
			let value = valid_value(&tag);
			(Just(tag), value)
		})
		.boxed();
	let named = named_tag().prop_filter("not decoded", |t| !is_decoded(t));
	(
		prop_oneof![
			4 => plain(any_tag().prop_map(primitive).prop_filter("not decoded", |t| !is_decoded(t)).boxed(), max_len),
			3 => plain(named.boxed(), max_len),
			3 => decoded,
			1 => plain(constructed_tag(), max_len.min(40)),
		],
		form,
	)
		.prop_map(|((tag, value), form)| Obj {
			tag: tag.into(),
			form,
			body: Body::Bytes(value.into()),
		})
		.boxed()
}
pub fn is_decoded(tag: &[u8]) -> bool {
	spec::DECODED_TAGS.contains(&tag)
}
pub fn obj(depth: u32, max_len: usize) -> BoxedStrategy<Obj> {
	if depth == 0 {
		return leaf(max_len);
	}
	let inner = (
		constructed_tag(),
		prop_oneof![5 => Just(0u8), 3 => 1u8..=4],
		vec(obj(depth - 1, max_len.min(60)), 0..4),
	)
		.prop_map(|(tag, form, kids)| Obj {
			tag: tag.into(),
			form,
			body: Body::Kids(kids),
		});
	Union::new_weighted(vec![(5, leaf(max_len)), (2, inner.boxed())]).boxed()
}
pub fn block(max_objs: usize, depth: u32, max_len: usize) -> BoxedStrategy<Vec<Obj>> {
	vec(obj(depth, max_len), 1..=max_objs).boxed()
}

/// Every one-byte tag and many two-byte ones, each with values that could be
/// taken for something special.
pub fn odd_leaves() -> Vec<Obj> {
	let mut tags: Vec<Vec<u8>> = (0..=255u8).filter(|b| b & 0x1F != 0x1F).map(|b| vec![b]).collect();
	tags.extend(spec::TAGS.iter().map(|(t, _)| t.to_vec()).filter(|t| t.len() > 1));
	for a in (0..8u8).map(|b| b << 5 | 0x1F) {
		for b in [0u8, 1, 0x1F, 0x20, 0x50, 0x7F] {
			tags.push(vec![a, b]);
			tags.push(vec![a, 0x80 | b, b]);
		}
	}
	tags.sort();
	tags.dedup();
	let mut objs = Vec::new();
	for tag in tags.iter().filter(|t| !is_decoded(t)) {
		let mut values = vec![
			vec![], vec![0], vec![0; 2], vec![0; 3], vec![0; 8], vec![0xFF], vec![0xFF; 2], vec![0xFF; 4], vec![0x20], vec![0x20; 3],
			b"00".to_vec(), b"\r\n".to_vec(), b"\t".to_vec(), vec![0x7F], vec![0x80], vec![1], vec![0x2A], vec![0x90, 0], b"....".to_vec(),
			vec![0; 16], vec![0x20; 16], vec![0; 17], vec![0x41; 32],
		];
		values.push(tag.clone());
		values.push([&tag[..], &[0]].concat());
		objs.extend(values.iter().map(|v| Obj::bytes(tag, v)));
	}
	objs
}

/// Objects that are almost the same: copies of one that differ in a byte, in
/// the order of their bytes, in their last child or only in how it's written.
pub fn twins() -> Vec<Vec<Obj>> {
	let filler = |n: usize, seed: usize| -> Vec<u8> { (0..n).map(|i| ((i * 37 + seed * 11 + i / 7) % 251) as u8).collect() };
	let mut bases: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
	for n in [1usize, 2, 3, 5, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300] {
		bases.push((vec![0xC1], filler(n, n)));
		bases.push((vec![0x50], vec![0; n]));
		// Templates, of one long child or of many
		bases.push((vec![0x70], crate::wire::encode_block(&[Obj::bytes(&[0x5A], &filler(n, 1)), Obj::bytes(&[0x50], &[0x41])])));
		bases.push((vec![0x70], crate::wire::encode_block(&[Obj::bytes(&[0x50], &[0x41]), Obj::bytes(&[0x5A], &filler(n, 2))])));
		if n < 70 {
			bases.push((vec![0xE1], crate::wire::encode_block(&vec![Obj::bytes(&[0x5F, 0x2A], &[8, 0x40]); n])));
			let inner = Obj::bytes(&[0x61], &crate::wire::encode_block(&vec![Obj::bytes(&[0xC2], &filler(n, 3)); 3]));
			bases.push((vec![0xE1], crate::wire::encode_block(&[inner.clone(), inner])));
		}
	}
	let mut all = Vec::new();
	for (i, (tag, value)) in bases.into_iter().enumerate() {
		let n = value.len();
		let mut others: Vec<Vec<u8>> = Vec::new();
		for at in [0, 1, 2, n / 2, n.saturating_sub(2), n - 1].into_iter().filter(|at| *at < n) {
			for bit in [0x01u8, 0x20, 0x80] {
				let mut v = value.clone();
				v[at] ^= bit;
				others.push(v);
			}
		}
		// The same bytes in another order; the same beginning or end
		let mut v = value.clone();
		v.rotate_left(n / 2);
		others.push(v);
		let mut v = value.clone();
		v.reverse();
		others.push(v);
		if n > 2 {
			let mut v = value.clone();
			v.swap(n - 1, n - 2);
			others.push(v);
		}
		others.push([&value[..], &[0]].concat());
		others.push(value[..n - 1].to_vec());
		let one = Obj::bytes(&tag, &value);
		for (j, other) in others.iter().enumerate() {
			let two = Obj::bytes(&tag, other);
			let mut third = Obj::bytes(&tag, &value);
			third.form = (j % 5) as u8;
			let elsewhere = Obj::bytes(&[tag[0] ^ 0x01], &value);
			all.push(match (i + j) % 4 {
				0 => vec![one.clone(), two],
				1 => vec![one.clone(), two, third],
				2 => vec![two.clone(), one.clone(), elsewhere, two, third],
				_ => vec![
					Obj {
						tag:  vec![0x77].into(),
						form: 0,
						body: Body::Kids(vec![one.clone(), Obj::bytes(&[0x9F, 0x02], &[])]),
					},
					two,
					Obj {
						tag:  vec![0x77].into(),
						form: 1,
						body: Body::Kids(vec![third, Obj::bytes(&[0x9F, 0x02], &[])]),
					},
				],
			});
		}
	}
	all
}

/// Every value of short objects, and every short code.
pub fn every_short() -> Vec<Obj> {
	let mut all = Vec::new();
	for tag in [&[0x9C][..], &[0x9F, 0x39], &[0x9F, 0x35], &[0x9F, 0x27], &[0x5F, 0x34], &[0x9F, 0x17], &[0x5F, 0x36], &[0x87]] {
		all.extend((0..=255u8).map(|b| Obj::bytes(tag, &[b])));
	}
	let characters = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	for a in characters {
		all.extend(characters.iter().map(|b| Obj::bytes(&[0x8A], &[*a, *b])));
	}
	all
}
/// Values of decoded and other EMV tags that say something particular.
pub fn notable() -> Vec<Obj> {
	let mut all: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
	let mut add = |tag: &[u8], value: &[u8]| all.push((tag.to_vec(), value.to_vec()));
	for (code, _) in spec::RESPONSE_CODES {
		add(&[0x8A], code.as_bytes());
	}
	for code in ["99", "ZZ", "A1", "1A", "Y1", "Y2", "Y3", "Z1", "Z2", "Z3", "Z4", "10", "11", "1a"] {
		add(&[0x8A], code.as_bytes());
	}
	for (code, _) in spec::TRANSACTION_TYPES {
		add(&[0x9C], &[*code]);
	}
	add(&[0x9C], &[0x77]);
	for (code, _) in spec::ENTRY_MODES {
		add(&[0x9F, 0x39], &[*code]);
	}
	for (code, _) in spec::TERMINAL_TYPES {
		add(&[0x9F, 0x35], &[*code]);
	}
	for (tag, n) in [(&[0x95][..], 5usize), (&[0x9B], 2), (&[0x9F, 0x0D], 5), (&[0x9F, 0x0E], 5), (&[0x9F, 0x0F], 5), (&[0x9F, 0x33], 3), (&[0x9F, 0x40], 5), (&[0x82], 2)] {
		add(tag, &vec![0; n]);
		add(tag, &vec![0xFF; n]);
		for bit in 0..n * 8 {
			let mut v = vec![0u8; n];
			v[bit / 8] |= 1 << (bit % 8);
			add(tag, &v);
		}
	}
	for (method, _) in spec::CVM_METHODS {
		for result in 0..3 {
			add(&[0x9F, 0x34], &[*method, 3, result]);
			add(&[0x9F, 0x34], &[*method | 0x40, 0, result]);
		}
		add(&[0x8E], &[0, 0, 0, 0, 0, 0, 0, 0, *method, 3]);
	}
	for condition in 0..10 {
		add(&[0x8E], &[0, 0, 0x10, 0, 0, 0, 0x20, 0, 0x42, condition, 0x1F, 0]);
	}
	for cci in [0xA5, 0xA6] {
		for cvr in [0u8, 0xFF] {
			let mut v = vec![cvr; 32];
			(v[0], v[1], v[16]) = (15, cci, 15);
			add(&[0x9F, 0x10], &v);
		}
	}
	add(&[0x9F, 0x10], &[6, 1, 0x0A, 3, 0xA0, 0, 0]);
	add(&[0x9F, 0x10], &[]);
	for code in [101u16, 201, 206, 221, 226, 501, 520, 601, 620, 702, 906, 999, 0] {
		add(&[0x5F, 0x30], &[(code / 100) as u8, ((code / 10 % 10) << 4 | code % 10) as u8]);
	}
	for cid in [0u8, 0x40, 0x80, 0xC0, 0x08, 0x81] {
		add(&[0x9F, 0x27], &[cid]);
	}
	for tag in [&[0x84][..], &[0x4F], &[0x9F, 0x06]] {
		for rid in [3u8, 4, 0x25, 0x65, 0x98, 0x52, 0x77] {
			add(tag, &[0xA0, 0, 0, if rid > 0x50 { 1 } else { 0 }, rid, 0x10, 0x10]);
		}
	}
	for tag in [&[0x9F, 0x1A][..], &[0x5F, 0x28], &[0x5F, 0x2A], &[0x9F, 0x42]] {
		for code in [[1, 0x24], [8, 0x26], [8, 0x40], [9, 0x78], [0, 0]] {
			add(tag, &code);
		}
	}
	for tag in [&[0x9F, 0x02][..], &[0x9F, 0x03], &[0x81], &[0x9F, 0x1B]] {
		add(tag, &[0; 6]);
		add(tag, &[0, 0, 0, 0, 1, 0]);
		add(tag, &[0x99; 6]);
	}
	for (tag, value) in [
		(&[0x9A][..], &[0x25u8, 1, 2][..]), (&[0x9A], &[0; 3]), (&[0x5F, 0x24], &[0x99, 0x12, 0x31]), (&[0x5F, 0x24], &[0, 1, 1]), (&[0x9F, 0x21], &[0x23, 0x59, 0x59]),
		(&[0x9F, 0x36], &[0, 0]), (&[0x9F, 0x36], &[0xFF, 0xFF]), (&[0x9F, 0x37], &[0; 4]), (&[0x9F, 0x26], &[0; 8]), (&[0x5F, 0x34], &[0]), (&[0x5F, 0x34], &[1]),
		(&[0x50], b"VISA"), (&[0x50], b"MASTERCARD"), (&[0x5F, 0x2D], b"en"), (&[0x5F, 0x2D], b"frde"), (&[0x5F, 0x20], b"DOE/JOHN"), (&[0x9F, 0x12], b"DEBIT"), (&[0x9F, 0x11], &[1]),
		(&[0x5A], &[0x47, 0x61, 0x73, 0, 0, 0, 1, 0x19]), (&[0x57], &[0x47, 0x61, 0x73, 0, 0, 0, 1, 0x19, 0xD2, 0x21, 0x22, 1, 0, 0, 0, 0]), (&[0x9F, 0x17], &[0]), (&[0x9F, 0x17], &[3]),
		(&[0x5F, 0x36], &[2]), (&[0x5F, 0x36], &[0]), (&[0x9F, 0x44], &[3]), (&[0x87], &[0]), (&[0x87], &[0x81]), (&[0x88], &[1]), (&[0x94], &[8, 1, 1, 0]), (&[0x9F, 0x38], &[0x9F, 0x1A, 2]),
		(&[0x8C], &[0x9F, 2, 6, 0x95, 5]), (&[0x8D], &[0x8A, 2]), (&[0x91], &[0x11; 10]), (&[0x89], b"123456"), (&[0x9F, 0x07], &[0xFF, 0]), (&[0x9F, 0x07], &[0, 0]), (&[0x9F, 0x08], &[0, 2]),
		(&[0x9F, 0x09], &[0, 0x8C]), (&[0x9F, 0x1C], b"00000001"), (&[0x9F, 0x1E], b"12345678"), (&[0x9F, 0x15], &[0x54, 0x11]), (&[0x9F, 0x66], &[0x36, 0, 0x40, 0]), (&[0x9F, 0x6E], &[0x20, 0x70]),
		(&[0xDF, 0x81, 0x01], &[1]), (&[0xFF, 0x01], &[]), (&[0], &[]), (&[0x70], &[]), (&[0x70], &[0x5A, 1, 2]), (&[0x77], &[0x9F, 0x27, 1, 0x80]), (&[0xBF, 0x0C], &[0x9F, 0x4D, 2, 0x0B, 0x0A]),
	] {
		add(tag, value);
	}
	all.iter().map(|(tag, value)| Obj::bytes(tag, value)).collect()
}

/// Objects out of order, with values that are masked under one setting or
/// another: how they're shown tells settings apart.
pub fn telling_objs() -> BoxedStrategy<Vec<Obj>> {
	let masked = prop_oneof![
		2 => select(vec![b'*', b'#', b'x', b'X', b'?', b'.', b'-', b'_', b'0', b' ', b'=', b'/', b'F', 0, 0xFF, 0x2A]),
		1 => 0x20u8..0x7F,
	];
	let value = prop_oneof![3 => (masked, 2usize..6).prop_map(|(c, n)| vec![c; n]), 1 => bytes(4)];
	vec((select(vec![0x9Au8, 0x5A, 0x50, 0x57, 0x82, 0x4F]), value), 1..5)
		.prop_map(|objs| objs.iter().map(|(tag, value)| Obj::bytes(&[*tag], value)).collect())
		.boxed()
}

/// A chain of constructed objects around a block, with objects beside it on
/// the way.
pub fn chain(max_depth: usize) -> BoxedStrategy<Vec<Obj>> {
	(
		vec((constructed_tag(), 0u8..3, 0u8..16), 1..=max_depth),
		vec(leaf(8), 0..3),
	)
		.prop_map(|(wraps, core)| {
			let mut kids = core;
			for (tag, form, beside) in wraps {
				let wrapped = Obj {
					tag: tag.into(),
					form,
					body: Body::Kids(kids),
				};
				kids = match beside {
					0 => vec![Obj::bytes(&[0x5A], &[0x12]), wrapped],
					1 => vec![wrapped, Obj::bytes(&[0x9F, 0x02], &[])],
					_ => vec![wrapped],
				};
			}
			kids
		})
		.boxed()
}

/// The number of constructed objects around something, mostly few.
pub fn wraps() -> BoxedStrategy<u8> {
	prop_oneof![20 => 0u8..4, 5 => 4u8..12, 2 => 12u8..60, 1 => 60u8..140].boxed()
}

// Masks

pub const UNUSED_MASK: char = '\u{1F4B3}';

pub fn mask_char() -> BoxedStrategy<char> {
	let dict = dictionary()
		.chars
		.iter()
		.copied()
		.chain(['*', '#'])
		.collect::<Vec<_>>();
	prop_oneof![
		6 => select(vec!['*', '#', 'X', 'x', '.', '-', '0', 'F', 'f', '?', '_', ' ', '=', ',', '\u{2A}']),
		2 => (0x20u8..0x7F).prop_map(char::from),
		1 => (1u8..0x80).prop_map(char::from),
		1 => select(dict),
		1 => select(vec!['\u{e9}', '\u{2022}', '\u{1F4B3}', '\u{ff0a}', '\u{12a}']),
	]
	.boxed()
}
pub fn masks(max: usize) -> BoxedStrategy<Vec<char>> {
	vec(mask_char(), 1..=max).boxed()
}

// Ingenico

pub fn separator() -> BoxedStrategy<char> {
	prop_oneof![
		5 => select(vec![';', ' ', ':', '|', '\u{1c}', ',', 'T', '\n', 'a', 'h', '0', '*']),
		3 => (1u8..0x80).prop_map(char::from),
	]
	.boxed()
}
pub fn kind() -> BoxedStrategy<char> {
	prop_oneof![
		9 => Just('T'),
		2 => select(vec!['C', 't', 'D', 'E', ':', ';', '0', 'a', 'h']),
		1 => (1u8..0x80).prop_map(char::from),
	]
	.boxed()
}
pub fn rec(max_len: usize) -> BoxedStrategy<Rec> {
	let content = prop_oneof![
		5 => obj(2, max_len).prop_map(|o| (o.tag.0.clone(), o.value(), false)),
		3 => (any_tag(), ascii_text(max_len)).prop_map(|(t, v)| (t, v, true)),
		1 => (named_tag(), ascii_text(max_len)).prop_map(|(t, v)| (t, v, true)),
	];
	(
		content,
		kind(),
		prop_oneof![3 => Just(0usize), 1 => 1usize..4],
		prop_oneof![3 => Just(0u8), 1 => 1u8..=4],
		any::<u8>(),
		separator(),
	)
		.prop_map(|((tag, value, ascii), kind, zeros, len_bytes, lower_case, separator)| {
			let mut padded = vec![0; zeros];
			padded.extend(tag);
			Rec {
				kind,
				tag: padded.into(),
				len_bytes,
				ascii: ascii && value.is_ascii() && !value.contains(&0),
				value: value.into(),
				lower_case,
				separator,
			}
		})
		.boxed()
}
pub fn recs(max: usize, max_len: usize) -> BoxedStrategy<Vec<Rec>> {
	vec(rec(max_len), 1..=max).boxed()
}

// Noise

/// Something to put around hex digits that isn't one.
pub fn noise() -> BoxedStrategy<String> {
	let piece = prop_oneof![
		6 => select(vec![
			" ", "  ", "-", ":", ",", "\n", "\t", "\r\n", "_", ".", "g", "G", "x", "h", "#", "|", "\u{1c}",
		])
		.prop_map(str::to_owned),
		2 => (1u8..0x80)
			.prop_map(char::from)
			.prop_filter("no digit", |c| !c.is_ascii_hexdigit())
			.prop_map(String::from),
		1 => select(vec!["\u{e9}", "\u{ff11}", "\u{661}", "\u{1F4B3}", "\u{0}\u{80}", "\u{df}", "\u{c5}"])
			.prop_map(|s| s.replace('\0', "")),
	];
	vec(piece, 0..4).prop_map(|p| p.concat()).boxed()
}
/// Writes bytes with changed case and noise between any two digits.
pub fn noisy(bytes: &[u8], lower_case: u64, noise: &[String]) -> String {
	let mut out = String::new();
	let digits = crate::wire::hex(bytes);
	for (i, c) in digits.chars().enumerate() {
		if !noise.is_empty() {
			out.push_str(&noise[(i * 7 + i / 3) % noise.len()]);
		}
		out.push(if lower_case >> (i % 64) & 1 == 1 {
			c.to_ascii_lowercase()
		} else {
			c
		});
	}
	if let Some(n) = noise.last() {
		out.push_str(n);
	}
	out
}

// Mutation

/// A change to encoded bytes.
#[derive(Clone, Debug)]
pub enum Edit {
	Cut(Index),
	Drop(Index),
	Insert(Index, u8),
	Set(Index, u8),
	Add(Index, u8),
	Append(Vec<u8>),
	Duplicate(Index, Index),
}
pub fn edit() -> BoxedStrategy<Edit> {
	let at = any::<Index>;
	prop_oneof![
		4 => at().prop_map(Edit::Cut),
		2 => at().prop_map(Edit::Drop),
		2 => (at(), byte()).prop_map(|(a, b)| Edit::Insert(a, b)),
		3 => (at(), byte()).prop_map(|(a, b)| Edit::Set(a, b)),
		3 => (at(), select(vec![1u8, 255, 2, 254, 0x80, 0x20])).prop_map(|(a, b)| Edit::Add(a, b)),
		2 => vec(byte(), 1..4).prop_map(Edit::Append),
		1 => (at(), at()).prop_map(|(a, b)| Edit::Duplicate(a, b)),
	]
	.boxed()
}
pub fn apply(edit: &Edit, v: &mut Vec<u8>) {
	if v.is_empty() {
		return;
	}
	let n = v.len();
	match edit {
		Edit::Cut(i) => v.truncate(i.index(n).max(1)),
		Edit::Drop(i) => {
			v.remove(i.index(n));
		}
		Edit::Insert(i, b) => v.insert(i.index(n + 1), *b),
		Edit::Set(i, b) => v[i.index(n)] = *b,
		Edit::Add(i, b) => {
			let i = i.index(n);
			v[i] = v[i].wrapping_add(*b);
		}
		Edit::Append(more) => v.extend(more),
		Edit::Duplicate(a, b) => {
			let (a, b) = (a.index(n), b.index(n));
			let part = v[a.min(b)..a.max(b)].to_vec();
			v.extend(part);
		}
	}
}

pub fn hexed(v: Vec<u8>) -> Hex {
	v.into()
}
