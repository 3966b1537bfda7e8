//! The attribute of the wasm-bindgen stand-in (see ../wasm-bindgen).  Items are left as they are,
//! except that an `extern "C"` block becomes types over JsValue and calls of `wasm_bindgen::host`.
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn is_punct(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn text(v: &[TokenTree]) -> String { v.iter().cloned().collect::<TokenStream>().to_string() }

#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
	let v: Vec<TokenTree> = item.clone().into_iter().collect();
	match v.first() {
		Some(TokenTree::Ident(i)) if i.to_string() == "extern" => (),
		_ => return item,
	}
	let body = match v.last() {
		Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g.stream(),
		_ => return item,
	};
	let (mut out, mut cur) = (String::new(), vec![]);
	for t in body {
		if is_punct(&t, ';') {
			out += &import(&std::mem::take(&mut cur));
		} else {
			cur.push(t)
		}
	}
	out.parse().unwrap()
}
fn import(v: &[TokenTree]) -> String {
	let (mut i, mut attr) = (0, String::new());
	while is_punct(&v[i], '#') {
		let a = text(&v[i + 1..i + 2]);
		if a.contains("wasm_bindgen") {
			attr = a;
		}
		i += 2;
	}
	let k = (i..v.len()).find(|&k| matches!(&v[k], TokenTree::Ident(w) if w.to_string() == "type" || w.to_string() == "fn")).expect("a type or a function");
	let (vis, name) = (text(&v[i..k]), v[k + 1].to_string());
	if v[k].to_string() == "type" {
		return format!(
			"{vis} struct {name}(::wasm_bindgen::JsValue);
			impl ::std::ops::Deref for {name} {{ type Target = ::wasm_bindgen::JsValue; fn deref(&self) -> &::wasm_bindgen::JsValue {{ &self.0 }} }}
			impl ::std::convert::From<::wasm_bindgen::JsValue> for {name} {{ fn from(v: ::wasm_bindgen::JsValue) -> Self {{ {name}(v) }} }}
			impl ::std::convert::From<{name}> for ::wasm_bindgen::JsValue {{ fn from(v: {name}) -> Self {{ v.0 }} }}
			impl ::std::convert::AsRef<::wasm_bindgen::JsValue> for {name} {{ fn as_ref(&self) -> &::wasm_bindgen::JsValue {{ &self.0 }} }}"
		);
	}
	let args = match &v[k + 2] {
		TokenTree::Group(g) => g.stream(),
		_ => panic!("no parameters"),
	};
	let names: Vec<String> = {
		let a: Vec<TokenTree> = args.clone().into_iter().collect();
		(0..a.len()).filter(|&j| is_punct(&a[j], ':') && j > 0 && (j < 2 || is_punct(&a[j - 2], ','))).map(|j| a[j - 1].to_string()).collect()
	};
	let ret = text(&v[k + 3..]);
	let class = attr.split("static_method_of").nth(1).map(|r| r.trim_start_matches([' ', '=']).chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>());
	let full = class.as_ref().map_or(name.clone(), |c| format!("{c}.{name}"));
	let call = format!("::wasm_bindgen::host({full:?}, &[{}])", names.iter().map(|n| format!("::wasm_bindgen::JsValue::from({n})")).collect::<Vec<_>>().join(", "));
	let f = format!("#[allow(unused)] {vis} fn {name}({args}) {ret} {{ {call}{} }}", if ret.is_empty() { ";" } else { ".into()" });
	match class {
		Some(c) => format!("impl {c} {{ {f} }}"),
		None => f,
	}
}
