//! Attribute macros of the salsa stand-in (see ../salsa).  They work on the plain tokens.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn tts(s: TokenStream) -> Vec<TokenTree> { s.into_iter().collect() }
fn is_punct(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
fn is_ident(t: &TokenTree, s: &str) -> bool { matches!(t, TokenTree::Ident(i) if i.to_string() == s) }
fn text(v: &[TokenTree]) -> String { v.iter().cloned().collect::<TokenStream>().to_string() }

/// Splits at top-level commas (angle brackets nest).
fn commas(s: TokenStream) -> Vec<Vec<TokenTree>> {
	let (mut out, mut cur, mut depth) = (vec![], vec![], 0i32);
	let mut prev_dash = false;
	for t in s {
		if is_punct(&t, '<') {
			depth += 1;
		}
		if is_punct(&t, '>') && !prev_dash {
			depth -= 1;
		}
		prev_dash = is_punct(&t, '-');
		if depth == 0 && is_punct(&t, ',') {
			out.push(std::mem::take(&mut cur));
		} else {
			cur.push(t);
		}
	}
	if !cur.is_empty() {
		out.push(cur);
	}
	out
}

/// Leading attributes, as (their texts, the rest).
fn attrs(v: &[TokenTree]) -> (Vec<String>, &[TokenTree]) {
	let (mut i, mut a) = (0, vec![]);
	while i + 1 < v.len() && is_punct(&v[i], '#') {
		a.push(text(&v[i + 1..i + 2]));
		i += 2;
	}
	(a, &v[i..])
}

/// Visibility, then the rest.
fn vis(v: &[TokenTree]) -> (String, &[TokenTree]) {
	if !v.is_empty() && is_ident(&v[0], "pub") {
		if let Some(TokenTree::Group(g)) = v.get(1) {
			if g.delimiter() == Delimiter::Parenthesis {
				return (text(&v[..2]), &v[2..]);
			}
		}
		return ("pub".into(), &v[1..]);
	}
	(String::new(), v)
}

struct Field {
	vis: String,
	name: String,
	ty: String,
	by_ref: bool,
}
fn fields(g: &Group) -> Vec<Field> {
	commas(g.stream())
		.iter()
		.map(|f| {
			let (a, r) = attrs(f);
			let (vis, r) = vis(r);
			let by_ref = a.iter().any(|x| x.contains("return_ref"));
			Field { vis, name: r[0].to_string(), ty: text(&r[2..]), by_ref }
		})
		.collect()
}

fn salsa_struct(item: TokenStream, interned: bool) -> TokenStream {
	let v = tts(item);
	let (a, r) = attrs(&v);
	let a: Vec<String> = a.iter().filter(|x| !x.contains("derive")).map(|x| format!("#{x}")).collect();
	let (vis, r) = vis(r);
	assert!(is_ident(&r[0], "struct"), "expected a struct");
	let name = r[1].to_string();
	let fs = match &r[2] {
		TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => fields(g),
		_ => panic!("salsa stand-in: named fields expected"),
	};
	let data = format!("__{name}Data");
	let decl: String = fs.iter().map(|f| format!("pub {}: {},", f.name, f.ty)).collect();
	let derive = if interned { "#[derive(PartialEq)]" } else { "" };
	let args: String = fs.iter().map(|f| format!("{}: {},", f.name, f.ty)).collect();
	let names: String = fs.iter().map(|f| format!("{},", f.name)).collect();
	let mut get = String::new();
	for f in &fs {
		let (ret, e) = if f.by_ref { (format!("&'__db {}", f.ty), "&") } else { (f.ty.clone(), "") };
		let e2 = if f.by_ref { "" } else { ".clone()" };
		get += &format!(
			"{} fn {n}<'__db, __DB: ?Sized + ::salsa::HasRuntime>(self, __db: &'__db __DB) -> {ret} {{ {e}::salsa::get::<{data}>(__db.salsa_runtime(), self.0).{n}{e2} }}\n\
			 {} fn set_{n}<'__db, __DB: ?Sized + ::salsa::HasRuntime>(self, __db: &'__db mut __DB) -> ::salsa::Setter<'__db, {data}, {ty}> {{ ::salsa::Setter::new(__db.salsa_runtime(), self.0, |d, v| d.{n} = v) }}\n",
			f.vis, f.vis, n = f.name, ty = f.ty
		);
	}
	let new = if interned { "intern" } else { "alloc" };
	let out = format!(
		"{attrs} #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] {vis} struct {name}(::salsa::Id);\n\
		 #[doc(hidden)] #[allow(non_camel_case_types)] {derive} pub struct {data} {{ {decl} }}\n\
		 impl {name} {{\n\
		 {vis} fn new<__DB: ?Sized + ::salsa::HasRuntime>(__db: &__DB, {args}) -> Self {{ {name}(::salsa::{new}(__db.salsa_runtime(), {data} {{ {names} }})) }}\n\
		 {get} }}\n\
		 impl ::salsa::AsId for {name} {{ fn as_id(self) -> ::salsa::Id {{ self.0 }} fn from_id(id: ::salsa::Id) -> Self {{ {name}(id) }} }}",
		attrs = a.join(" ")
	);
	out.parse().unwrap()
}

#[proc_macro_attribute]
pub fn input(_: TokenStream, item: TokenStream) -> TokenStream { salsa_struct(item, false) }
#[proc_macro_attribute]
pub fn interned(_: TokenStream, item: TokenStream) -> TokenStream { salsa_struct(item, true) }

#[proc_macro_attribute]
pub fn tracked(attr: TokenStream, item: TokenStream) -> TokenStream {
	let v = tts(item.clone());
	let (_, r) = attrs(&v);
	let (_, r) = vis(r);
	if is_ident(&r[0], "struct") {
		return salsa_struct(item, false);
	}
	tracked_fn(attr.to_string().contains("return_ref"), v)
}

fn tracked_fn(by_ref: bool, v: Vec<TokenTree>) -> TokenStream {
	let (a, r) = attrs(&v);
	let a: Vec<String> = a.iter().map(|x| format!("#{x}")).collect();
	let (vis, r) = vis(r);
	assert!(is_ident(&r[0], "fn"), "salsa stand-in: expected fn");
	let name = r[1].to_string();
	let params = match &r[2] {
		TokenTree::Group(g) => commas(g.stream()),
		_ => panic!("salsa stand-in: parameters expected"),
	};
	let body = r.last().unwrap().to_string();
	let ret = text(&r[5..r.len() - 1]);
	let db = params[0][0].to_string();
	// the database parameter's type after `&` and an optional lifetime
	let mut i = 3;
	if is_punct(&params[0][i], '\'') {
		i += 2;
	}
	let dbty = text(&params[0][i..]);
	let pname: Vec<String> = params[1..].iter().map(|p| text(&p[..p.iter().position(|t| is_punct(t, ':')).unwrap()])).collect();
	let pname: Vec<String> = pname.iter().map(|p| p.trim_start_matches("mut ").to_string()).collect();
	let ptype: Vec<String> = params[1..].iter().map(|p| text(&p[p.iter().position(|t| is_punct(t, ':')).unwrap() + 1..])).collect();
	let psig: String = pname.iter().zip(&ptype).map(|(n, t)| format!("{n}: {t},")).collect();
	let pnames: String = pname.iter().map(|n| format!("{n},")).collect();
	let ids: String = pname.iter().map(|n| format!("::salsa::AsId::as_id({n}),")).collect();
	let (rty, cl) = if by_ref { (format!("&'__db {ret}"), "") } else { (ret.clone(), ".clone()") };
	let inner: String = params.iter().map(|p| text(p) + ",").collect();
	let out = format!(
		"{attrs} {vis} fn {name}<'__db>({db}: &'__db {dbty}, {psig}) -> {rty} {{\n\
		 fn __inner({inner}) -> {ret} {body}\n\
		 ::salsa::call::<{name}, {ret}>({db}.salsa_runtime(), &[{ids}], || __inner({db}, {pnames})){cl} }}\n\
		 #[allow(non_camel_case_types)] {vis} struct {name} {{}}\n\
		 impl {name} {{ {vis} fn accumulated<__A: ::salsa::Accumulator + 'static>({db}: &{dbty}, {psig}) -> Vec<__A::Data> {{\n\
		 {name}({db}, {pnames}); ::salsa::accumulated::<{name}, __A>({db}.salsa_runtime(), &[{ids}]) }} }}",
		attrs = a.join(" ")
	);
	out.parse().unwrap()
}

#[proc_macro_attribute]
pub fn accumulator(_: TokenStream, item: TokenStream) -> TokenStream {
	let v = tts(item);
	let (_, r) = attrs(&v);
	let (vis, r) = vis(r);
	let name = r[1].to_string();
	let ty = match &r[2] {
		TokenTree::Group(g) => {
			let v = tts(g.stream());
			let (_, r) = crate::vis(&v);
			text(r).trim_end_matches(',').to_string()
		}
		_ => panic!("salsa stand-in: tuple struct expected"),
	};
	format!(
		"{vis} struct {name}({ty});\n\
		 impl {name} {{ {vis} fn push<__DB: ?Sized + ::salsa::HasRuntime>(__db: &__DB, v: {ty}) {{ ::salsa::push::<{name}>(__db.salsa_runtime(), v) }} }}\n\
		 impl ::salsa::Accumulator for {name} {{ type Data = {ty}; }}"
	)
	.parse()
	.unwrap()
}

#[proc_macro_attribute]
pub fn jar(_: TokenStream, item: TokenStream) -> TokenStream {
	let v = tts(item);
	let (_, r) = attrs(&v);
	let (vis, r) = vis(r);
	format!("{vis} struct {};", r[1]).parse().unwrap()
}

#[proc_macro_attribute]
pub fn db(attr: TokenStream, item: TokenStream) -> TokenStream {
	let v = tts(item.clone());
	let (_, r) = attrs(&v);
	let (_, r) = vis(r);
	let name = r[1].to_string();
	let jars: String = commas(attr)
		.iter()
		.map(|j| format!("impl ::salsa::DbWithJar<{}> for {name} {{}}", text(j)))
		.collect();
	let more: TokenStream =
		format!("impl ::salsa::HasRuntime for {name} {{ fn salsa_runtime(&self) -> &::salsa::Runtime {{ self.storage.runtime() }} }} {jars}")
			.parse()
			.unwrap();
	let mut out = item;
	out.extend(more);
	out
}
