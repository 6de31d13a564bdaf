//! Storages defined by a user of the library, who relies on the contracts of the traits, and on
//! what their provided methods do.
use crate::{spec::*, st::*, *};
use ser_raw::storage::{AlignedVec, ContiguousStorage, RandomAccessStorage, Storage};
use std::mem::{align_of, size_of};

/// Checks that its unsafe methods are called as their contracts say.
/// If `GAP`, leaves space each time room is reserved.
pub struct Custom<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, const GAP: bool> {
	inner: AlignedVec<SA, MVA, VA, MAX>,
	/// Positions of data pushed
	pub log: Log,
}

pub struct Log {
	pub at: [usize; 6],
	pub n: usize,
}

impl Log {
	fn new() -> Self {
		Log { at: [0; 6], n: 0 }
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, const GAP: bool> Storage for Custom<SA, MVA, VA, MAX, GAP> {
	const STORAGE_ALIGNMENT: usize = SA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = MAX;

	fn new() -> Self {
		Custom { inner: AlignedVec::new(), log: Log::new() }
	}

	unsafe fn with_capacity_unchecked(capacity: usize) -> Self {
		prove("C24: storage asked for capacity beyond MAX_CAPACITY", capacity <= MAX);
		prove("C18: storage asked for no capacity", capacity > 0);
		prove("C18: storage asked for capacity which is not a multiple of MAX_VALUE_ALIGNMENT", aligned(capacity, MVA));
		Custom { inner: AlignedVec::with_capacity_unchecked(capacity), log: Log::new() }
	}

	fn capacity(&self) -> usize {
		self.inner.capacity()
	}

	fn pos(&self) -> usize {
		self.inner.pos()
	}

	unsafe fn set_pos(&mut self, pos: usize) {
		prove("C06: storage moved to position beyond its capacity", pos <= self.capacity());
		prove("C05: storage moved to position which is not a multiple of VALUE_ALIGNMENT", aligned(pos, VA));
		self.inner.set_pos(pos)
	}

	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		prove("C06: size given to storage is not that of slice", size == size_of::<T>().wrapping_mul(slice.len()));
		let pos = self.pos();
		prove("C05: pushed at position not aligned for the type", aligned(pos, align_of::<T>()));
		prove("C06: pushed to storage without sufficient capacity", self.capacity().wrapping_sub(pos) >= size);
		if size > 0 && self.log.n < 6 {
			self.log.at[self.log.n] = pos;
			self.log.n += 1;
		}
		self.inner.push_slice_unchecked(slice, size)
	}

	fn reserve(&mut self, additional: usize) {
		if GAP && either() {
			let gap = any();
			assume(gap <= 1 << 20);
			assume(aligned(gap, MVA));
			self.inner.reserve(additional.wrapping_add(gap));
			unsafe { self.inner.set_pos(self.inner.pos().wrapping_add(gap)) };
			return;
		}
		self.inner.reserve(additional)
	}

	fn shrink_to_fit(&mut self) {
		self.inner.shrink_to_fit()
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, const GAP: bool> RandomAccessStorage for Custom<SA, MVA, VA, MAX, GAP> {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		let size = size_of::<T>().wrapping_mul(slice.len());
		prove("C06: write beyond capacity", pos <= self.capacity() && self.capacity().wrapping_sub(pos) >= size);
		prove("C05: write at position not aligned for the type", aligned(pos, align_of::<T>()));
		self.inner.write_slice(pos, slice)
	}

	unsafe fn read<T>(&self, pos: usize) -> &T {
		self.inner.read(pos)
	}

	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		self.inner.read_mut(pos)
	}

	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.inner.ptr(pos)
	}

	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.inner.mut_ptr(pos)
	}
}

impl<const SA: usize, const MVA: usize, const VA: usize, const MAX: usize, const GAP: bool> ContiguousStorage for Custom<SA, MVA, VA, MAX, GAP> {
	fn as_ptr(&self) -> *const u8 {
		self.inner.as_ptr()
	}

	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.inner.as_mut_ptr()
	}
}

/// Provided methods of `Storage`
pub type C1 = Custom<16, 16, 1, { ser_raw::util::aligned_max_capacity(16) }, false>;
pub type C8 = Custom<16, 16, 8, { ser_raw::util::aligned_max_capacity(16) }, false>;
pub type CSmall = Custom<16, 8, 2, 4096, false>;
pub type CWide = Custom<64, 32, 16, 1120, false>;
pub type C16 = Custom<32, 16, 16, { ser_raw::util::aligned_max_capacity(32) }, false>;

/// Storage which may leave space when room is reserved
pub type G1 = Custom<16, 16, 1, { ser_raw::util::aligned_max_capacity(16) }, true>;
pub type G8 = Custom<16, 16, 8, { ser_raw::util::aligned_max_capacity(16) }, true>;

/// Position returned is where the storage put the data
pub fn placed<S: Full, T>(which: usize) {
	let mut s = start::<S>();
	let b = before(&s);
	let (value, slice) = (any_ref::<T>(), any_slice::<T>());
	let n = match which {
		0 | 2 => 1,
		1 => slice.len(),
		_ => any(),
	};
	assume(n <= 1 << 32);
	let got = match which {
		0 => s.push(value),
		1 => s.push_slice(slice),
		2 => s.push_empty::<T>(),
		_ => s.push_empty_slice::<T>(n),
	};
	reach("C09: pushed to storage which leaves space");
	let size = size_of::<T>().wrapping_mul(n);
	prove("C09: position returned is below previous end", got >= b.pos);
	prove("C05: position returned is not aligned for the type", aligned(got, align_of::<T>()));
	prove("C09: position after push is not the end of data rounded up to VALUE_ALIGNMENT", s.pos() == up(got.wrapping_add(size), S::VALUE_ALIGNMENT));
	b.kept(&s);
	let at = s.as_ptr().wrapping_add(got);
	match which {
		0 => bytes_eq("C09: bytes at returned position are not those pushed", at, value as *const T as *const u8, size),
		1 => bytes_eq("C09: bytes at returned position are not those pushed", at, slice.as_ptr() as *const u8, size),
		_ => (),
	}
}

fn start<S: Full>() -> S {
	let s = any_storage::<S>();
	assume(s.pos() <= 1 << 40);
	s
}

/// Operations as specified for the storage of the library
pub fn all<S: Full, T>(which: usize) {
	match which {
		0 => push_slice::<S, T>(),
		1 => push_value::<S, T>(),
		2 => push_empty_slice::<S, T>(),
		3 => push_empty::<S, T>(),
		_ => push_in_steps::<S, T>(),
	}
}
