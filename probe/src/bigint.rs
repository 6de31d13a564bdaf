//! Arbitrary big integers
use crate::{val::*, *};
use num_bigint::{BigInt, BigUint, Sign};
use std::mem::transmute;

impl Val for BigUint {
	fn any() -> Self {
		// Up to any length, with any spare capacity
		unsafe { transmute::<Vec<usize>, BigUint>(Val::any()) }
	}
	fn hold(&self, on: bool) {
		digits(self).hold(on);
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		digits(self).header(out, cx);
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		digits(self).data(out, cx);
	}
	fn extent(&self, cx: &mut Cx) {
		digits(self).extent(cx);
	}
}

fn digits(x: &BigUint) -> &Vec<usize> {
	unsafe { &*(x as *const BigUint as *const Vec<usize>) }
}

impl Val for BigInt {
	fn any() -> Self {
		let d: Vec<usize> = Val::any();
		if split(d.len() == 0) {
			return BigInt::from_biguint(Sign::NoSign, unsafe { transmute(d) });
		}
		BigInt::from_biguint(if either() { Sign::Minus } else { Sign::Plus }, unsafe { transmute(d) })
	}
	fn hold(&self, on: bool) {
		self.magnitude().hold(on);
	}
	fn header(&self, out: *const u8, cx: &Cx) {
		let copy = unsafe { &*(out as *const BigInt) };
		prove(rule!(cx.kind, "sign of copy differs from input"), copy.sign() == self.sign());
		let m = self.magnitude();
		m.header(sub(self, m, out), cx);
	}
	fn data(&self, out: *const u8, cx: &mut Cx) {
		let m = self.magnitude();
		m.data(sub(self, m, out), cx);
	}
	fn extent(&self, cx: &mut Cx) {
		self.magnitude().extent(cx);
	}
}
