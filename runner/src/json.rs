//! Just enough JSON for replay files and evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), U(u64), F(f64), S(String), A(Vec<J>), O(BTreeMap<String, J>) }

impl From<u64> for J { fn from(v: u64) -> J { J::U(v) } }
impl From<usize> for J { fn from(v: usize) -> J { J::U(v as u64) } }
impl From<bool> for J { fn from(v: bool) -> J { J::Bool(v) } }
impl From<f64> for J { fn from(v: f64) -> J { J::F(v) } }
impl From<&str> for J { fn from(v: &str) -> J { J::S(v.to_string()) } }
impl From<String> for J { fn from(v: String) -> J { J::S(v) } }
impl From<Vec<J>> for J { fn from(v: Vec<J>) -> J { J::A(v) } }

pub fn obj(items: Vec<(&str, J)>) -> J {
	J::O(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
	pub fn get(&self, k: &str) -> &J {
		static NULL: J = J::Null;
		match self { J::O(m) => m.get(k).unwrap_or(&NULL), _ => &NULL }
	}
	pub fn u(&self) -> u64 { match self { J::U(v) => *v, J::F(f) => *f as i64 as u64, J::Bool(b) => *b as u64, _ => 0 } }
	pub fn b(&self) -> bool { matches!(self, J::Bool(true)) }
	pub fn s(&self) -> &str { match self { J::S(s) => s, _ => "" } }
	pub fn a(&self) -> &[J] { match self { J::A(v) => v, _ => &[] } }
	pub fn text(&self) -> String { let mut s = String::new(); self.put(&mut s, 0); s }
	fn put(&self, o: &mut String, ind: usize) {
		match self {
			J::Null => o.push_str("null"),
			J::Bool(b) => { let _ = write!(o, "{b}"); }
			J::U(v) => { let _ = write!(o, "{v}"); }
			J::F(v) => { let _ = write!(o, "{v:.3}"); }
			J::S(s) => put_str(o, s),
			J::A(v) => {
				if v.is_empty() { o.push_str("[]"); return }
				let flat = v.iter().all(|x| !matches!(x, J::A(_) | J::O(_)));
				o.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 { o.push(','); if flat { o.push(' ') } }
					if !flat { o.push('\n'); o.push_str(&"  ".repeat(ind + 1)); }
					x.put(o, ind + 1);
				}
				if !flat { o.push('\n'); o.push_str(&"  ".repeat(ind)); }
				o.push(']');
			}
			J::O(m) => {
				if m.is_empty() { o.push_str("{}"); return }
				o.push('{');
				for (i, (k, x)) in m.iter().enumerate() {
					if i > 0 { o.push(',') }
					o.push('\n');
					o.push_str(&"  ".repeat(ind + 1));
					put_str(o, k);
					o.push_str(": ");
					x.put(o, ind + 1);
				}
				o.push('\n');
				o.push_str(&"  ".repeat(ind));
				o.push('}');
			}
		}
	}
}

fn put_str(o: &mut String, s: &str) {
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
			c => o.push(c),
		}
	}
	o.push('"');
}

pub fn parse(s: &str) -> Result<J, String> {
	let b = s.as_bytes();
	let mut i = 0;
	let v = value(b, &mut i)?;
	ws(b, &mut i);
	if i != b.len() { return Err(format!("trailing data at {i}")) }
	Ok(v)
}
fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && b[*i].is_ascii_whitespace() { *i += 1 } }
fn value(b: &[u8], i: &mut usize) -> Result<J, String> {
	ws(b, i);
	match b.get(*i) {
		None => Err("end of input".into()),
		Some(b'{') => {
			*i += 1;
			let mut m = BTreeMap::new();
			loop {
				ws(b, i);
				if b.get(*i) == Some(&b'}') { *i += 1; return Ok(J::O(m)) }
				let k = match value(b, i)? { J::S(s) => s, _ => return Err("key".into()) };
				ws(b, i);
				if b.get(*i) != Some(&b':') { return Err("colon".into()) }
				*i += 1;
				m.insert(k, value(b, i)?);
				ws(b, i);
				if b.get(*i) == Some(&b',') { *i += 1 }
			}
		}
		Some(b'[') => {
			*i += 1;
			let mut v = vec![];
			loop {
				ws(b, i);
				if b.get(*i) == Some(&b']') { *i += 1; return Ok(J::A(v)) }
				v.push(value(b, i)?);
				ws(b, i);
				if b.get(*i) == Some(&b',') { *i += 1 }
			}
		}
		Some(b'"') => {
			*i += 1;
			let mut out = vec![];
			while *i < b.len() && b[*i] != b'"' {
				if b[*i] == b'\\' {
					*i += 1;
					match b.get(*i) {
						Some(b'n') => out.push(b'\n'),
						Some(b'r') => out.push(b'\r'),
						Some(b't') => out.push(b'\t'),
						Some(b'u') => {
							let h = std::str::from_utf8(b.get(*i + 1..*i + 5).ok_or("u")?).map_err(|e| e.to_string())?;
							let c = char::from_u32(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?).unwrap_or('?');
							let mut t = [0; 4];
							out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
							*i += 4;
						}
						Some(&c) => out.push(c),
						None => return Err("escape".into()),
					}
					*i += 1;
				} else { out.push(b[*i]); *i += 1 }
			}
			*i += 1;
			String::from_utf8(out).map(J::S).map_err(|e| e.to_string())
		}
		Some(b't') => { *i += 4; Ok(J::Bool(true)) }
		Some(b'f') => { *i += 5; Ok(J::Bool(false)) }
		Some(b'n') => { *i += 4; Ok(J::Null) }
		Some(_) => {
			let st = *i;
			while *i < b.len() && (b[*i].is_ascii_digit() || b"+-.eE".contains(&b[*i])) { *i += 1 }
			let t = std::str::from_utf8(&b[st..*i]).map_err(|e| e.to_string())?;
			if let Ok(u) = t.parse::<u64>() { return Ok(J::U(u)) }
			t.parse::<f64>().map(J::F).map_err(|e| format!("{e}: {t:?} at {st}"))
		}
	}
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2);
	for x in b { let _ = write!(s, "{x:02x}"); }
	s
}
pub fn unhex(s: &str) -> Vec<u8> {
	s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("0"), 16).unwrap_or(0)).collect()
}
