//! Types with derived `Serialize`
use crate::val::*;
use crate::*;
use ser_raw::Serialize;

#[derive(Serialize)]
pub struct Plain {
	pub a: u8,
	pub b: Box<u32>,
	pub c: u16,
	pub d: Vec<u8>,
}
val_struct!(Plain { a: u8, b: Box<u32>, c: u16, d: Vec<u8> });

#[derive(Serialize)]
pub enum Choice {
	Nothing,
	One(Box<u16>),
	Two { a: Box<u8>, b: u64, c: Box<u64> },
}

impl Val for Choice {
	fn any() -> Self {
		match choose(3) {
			0 => Choice::Nothing,
			1 => Choice::One(Val::any()),
			_ => Choice::Two { a: Val::any(), b: Val::any(), c: Val::any() },
		}
	}
	fn hold(&self, on: bool) {
		match self {
			Choice::Nothing => {}
			Choice::One(a) => a.hold(on),
			Choice::Two { a, c, .. } => {
				a.hold(on);
				c.hold(on);
			}
		}
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		let copy = unsafe { &*(out as *const Choice) };
		let same = match (self, copy) {
			(Choice::Nothing, Choice::Nothing) => true,
			(Choice::One(_), Choice::One(_)) => true,
			(Choice::Two { .. }, Choice::Two { .. }) => true,
			_ => false,
		};
		prove(rule!(cx.kind, "copy of enum is another variant"), same);
		if let Choice::Two { b, .. } = self {
			b.header(sub(self, b, out), cx);
		}
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		match self {
			Choice::Nothing => {}
			Choice::One(a) => a.data(sub(self, a, out), cx),
			Choice::Two { a, c, .. } => {
				a.data(sub(self, a, out), cx);
				c.data(sub(self, c, out), cx);
			}
		}
	}
}

#[derive(Serialize)]
pub struct Holder<const N: usize> {
	pub x: u8,
	pub t: [Box<u16>; N],
}

impl<const N: usize> Val for Holder<N> {
	fn any() -> Self {
		Holder { x: Val::any(), t: Val::any() }
	}
	fn hold(&self, on: bool) {
		self.t.hold(on);
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		self.x.header(sub(self, &self.x, out), cx);
		self.t.header(sub(self, &self.t, out), cx);
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		self.t.data(sub(self, &self.t, out), cx);
	}
}
