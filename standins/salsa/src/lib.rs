//! A stand-in for salsa 2022, which is a git dependency of analyzer-core that cannot be had
//! offline.  It has what makes salsa's results what they are -- inputs, interning, tracked
//! functions as pure functions of their arguments, values accumulated by a function and
//! everything it calls -- and none of its incrementality beyond remembering each call's result
//! until an input is set.
pub use salsa_macros::{accumulator, db, input, interned, jar, tracked};
use std::any::TypeId;
use std::cell::RefCell;
use std::marker::PhantomData;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Id(u32);

pub trait AsId {
	fn as_id(self) -> Id;
	fn from_id(id: Id) -> Self;
}
pub trait HasRuntime {
	fn salsa_runtime(&self) -> &Runtime;
}
pub trait DbWithJar<J>: HasRuntime {}
pub trait Database: HasRuntime {}
pub trait Accumulator {
	type Data: Clone + 'static;
}

pub struct Storage<DB> {
	runtime: Runtime,
	_db: PhantomData<fn() -> DB>,
}
impl<DB> Default for Storage<DB> {
	fn default() -> Self { Storage { runtime: Runtime::default(), _db: PhantomData } }
}
impl<DB> Storage<DB> {
	pub fn runtime(&self) -> &Runtime { &self.runtime }
}

struct Call {
	function: TypeId,
	args: Vec<Id>,
	/// the leaked result, once it is known
	value: *mut u8,
	/// the calls it made, in order
	calls: Vec<usize>,
	/// what it accumulated: accumulator, leaked value
	pushed: Vec<(TypeId, *mut u8)>,
}

/// Everything stored is leaked: a database lives as long as the check that uses it.
#[derive(Default)]
pub struct Runtime {
	structs: RefCell<Vec<(TypeId, *mut u8)>>,
	calls: RefCell<Vec<Call>>,
	stack: RefCell<Vec<usize>>,
}

pub fn alloc<T: 'static>(rt: &Runtime, v: T) -> Id {
	let mut s = rt.structs.borrow_mut();
	s.push((TypeId::of::<T>(), Box::into_raw(Box::new(v)) as *mut u8));
	Id(s.len() as u32 - 1)
}
pub fn intern<T: 'static + PartialEq>(rt: &Runtime, v: T) -> Id {
	let found = rt
		.structs
		.borrow()
		.iter()
		.position(|(t, p)| *t == TypeId::of::<T>() && unsafe { &*(*p as *const T) } == &v);
	match found {
		Some(i) => Id(i as u32),
		None => alloc(rt, v),
	}
}
pub fn get<T: 'static>(rt: &Runtime, id: Id) -> &T {
	let s = rt.structs.borrow();
	let (t, p) = s[id.0 as usize];
	assert!(t == TypeId::of::<T>(), "salsa stand-in: id of another database or type");
	unsafe { &*(p as *const T) }
}

pub struct Setter<'a, D, V> {
	rt: &'a Runtime,
	id: Id,
	set: fn(&mut D, V),
}
impl<'a, D: 'static, V> Setter<'a, D, V> {
	pub fn new(rt: &'a Runtime, id: Id, set: fn(&mut D, V)) -> Self { Setter { rt, id, set } }
	pub fn to(self, v: V) {
		let p = self.rt.structs.borrow()[self.id.0 as usize].1;
		(self.set)(unsafe { &mut *(p as *mut D) }, v);
		self.rt.calls.borrow_mut().clear();
	}
}

fn find(rt: &Runtime, f: TypeId, args: &[Id]) -> Option<usize> { rt.calls.borrow().iter().position(|c| c.function == f && c.args == args) }

pub fn call<'a, F: 'static, R: 'static>(rt: &'a Runtime, args: &[Id], run: impl FnOnce() -> R) -> &'a R {
	let f = TypeId::of::<F>();
	let k = match find(rt, f, args) {
		Some(k) => {
			let c = &rt.calls.borrow()[k];
			assert!(!c.value.is_null(), "cycle in tracked functions");
			k
		}
		None => {
			let k = {
				let mut calls = rt.calls.borrow_mut();
				calls.push(Call { function: f, args: args.to_vec(), value: std::ptr::null_mut(), calls: vec![], pushed: vec![] });
				calls.len() - 1
			};
			rt.stack.borrow_mut().push(k);
			let v = run();
			rt.stack.borrow_mut().pop();
			rt.calls.borrow_mut()[k].value = Box::into_raw(Box::new(v)) as *mut u8;
			k
		}
	};
	if let Some(&caller) = rt.stack.borrow().last() {
		rt.calls.borrow_mut()[caller].calls.push(k);
	}
	let p = rt.calls.borrow()[k].value as *const R;
	unsafe { &*p }
}

pub fn push<A: Accumulator + 'static>(rt: &Runtime, v: A::Data) {
	let k = *rt.stack.borrow().last().expect("cannot accumulate values outside of an active query");
	rt.calls.borrow_mut()[k].pushed.push((TypeId::of::<A>(), Box::into_raw(Box::new(v)) as *mut u8));
}

/// What the call and the calls below it accumulated, every call counted once.
pub fn accumulated<F: 'static, A: Accumulator + 'static>(rt: &Runtime, args: &[Id]) -> Vec<A::Data> {
	let first = find(rt, TypeId::of::<F>(), args).expect("salsa stand-in: the call was just made");
	let calls = rt.calls.borrow();
	let (mut out, mut seen, mut todo) = (vec![], vec![], vec![first]);
	while let Some(k) = todo.pop() {
		if seen.contains(&k) {
			continue;
		}
		seen.push(k);
		for (t, p) in &calls[k].pushed {
			if *t == TypeId::of::<A>() {
				out.push(unsafe { (*(*p as *const A::Data)).clone() });
			}
		}
		todo.extend(calls[k].calls.iter().copied());
	}
	out
}
