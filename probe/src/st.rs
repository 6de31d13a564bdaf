//! Storage states and their invariants.
use crate::*;

pub trait Full: Storage + ContiguousStorage + RandomAccessStorage {}
impl<T: Storage + ContiguousStorage + RandomAccessStorage> Full for T {}

pub type A16 = AlignedVec;
pub type Small = AlignedVec<16, 16, 8, 1024>;
pub type V1 = AlignedVec<16, 16, 1, 1024>;
pub type V2 = AlignedVec<16, 8, 2, 4096>;
pub type V4 = AlignedVec<64, 32, 4, 1120>;
pub type V16 = AlignedVec<16, 16, 16, 1008>;
pub type Tiny = AlignedVec<8, 8, 8, 24>;
pub type Byte = AlignedVec<1, 1, 1, 100>;
pub type One = AlignedVec<16, 16, 8, 16>;
pub type U32 = AlignedVec<16, 16, 8, { ser_raw::util::aligned_max_u32_capacity(16) }>;
pub type Page = AlignedVec<4096, 64, 32, { ser_raw::util::aligned_max_capacity(4096) / 64 * 64 }>;

#[inline(always)]
pub fn up(x: usize, a: usize) -> usize {
	x.wrapping_add(a.wrapping_sub(1)) & !(a.wrapping_sub(1))
}

#[inline(always)]
pub fn aligned(x: usize, a: usize) -> bool {
	x & (a.wrapping_sub(1)) == 0
}

/// What holds of a storage at all times
pub fn inv<S: Full>(s: &S) {
	prove("C06: position exceeds capacity", s.pos() <= s.capacity());
	prove("C05: position is not a multiple of VALUE_ALIGNMENT", aligned(s.pos(), S::VALUE_ALIGNMENT));
	prove("C05: storage memory is not aligned to STORAGE_ALIGNMENT", aligned(s.as_ptr() as usize, S::STORAGE_ALIGNMENT));
	prove("C07: capacity is not a multiple of MAX_VALUE_ALIGNMENT", aligned(s.capacity(), S::MAX_VALUE_ALIGNMENT));
	prove("C24: capacity exceeds MAX_CAPACITY", s.capacity() <= S::MAX_CAPACITY);
}

/// Storage with arbitrary capacity, allocated, arbitrary content, at position 0
pub fn any_alloc<S: Full>() -> S {
	let cap = any();
	assume(cap > 0);
	assume(cap <= S::MAX_CAPACITY);
	assume(aligned(cap, S::MAX_VALUE_ALIGNMENT));
	let s = unsafe { S::with_capacity_unchecked(cap) };
	prove("C18: with_capacity_unchecked does not give the capacity requested", s.capacity() == cap);
	prove("C18: new storage is not at position 0", s.pos() == 0);
	havoc(s.as_ptr());
	s
}

/// Storage in arbitrary state: unallocated, or allocated with arbitrary position and content
pub fn any_storage<S: Full>() -> S {
	if either() {
		let s = S::new();
		prove("C18: new storage has capacity", s.capacity() == 0);
		prove("C18: new storage is not at position 0", s.pos() == 0);
		return s;
	}
	any_storage_alloc()
}

pub fn any_storage_alloc<S: Full>() -> S {
	let mut s = any_alloc::<S>();
	let pos = any();
	assume(pos <= s.capacity());
	assume(aligned(pos, S::VALUE_ALIGNMENT));
	unsafe { s.set_pos(pos) };
	prove("C09: position is not that which was set", s.pos() == pos);
	s
}

/// Read-only slice with arbitrary content and length
pub fn any_slice<'a, T>() -> &'a [T] {
	slice_of(any())
}

pub fn slice_of<'a, T>(n: usize) -> &'a [T] {
	let size = std::mem::size_of::<T>();
	if size != 0 {
		assume(n <= isize::MAX as usize / size);
	}
	let p = mem(n.wrapping_mul(size), std::mem::align_of::<T>());
	freeze(p);
	unsafe { std::slice::from_raw_parts(p as *const T, n) }
}

pub fn any_ref<'a, T>() -> &'a T {
	let p = mem(std::mem::size_of::<T>(), std::mem::align_of::<T>());
	freeze(p);
	unsafe { &*(p as *const T) }
}

/// State of storage before an operation
#[derive(Clone, Copy)]
pub struct Before {
	pub pos: usize,
	pub cap: usize,
	pub ptr: *const u8,
	pub snap: usize,
}

pub fn before<S: Full>(s: &S) -> Before {
	let ptr = s.as_ptr();
	Before {
		pos: s.pos(),
		cap: s.capacity(),
		ptr,
		snap: snap(ptr),
	}
}

impl Before {
	/// Content which was there before still is, and storage is well-formed
	pub fn kept<S: Full>(&self, s: &S) {
		inv(s);
		snap_eq("C07: content of storage lost or altered", s.as_ptr(), self.snap, 0, self.pos);
		prove("C07: capacity shrank", s.capacity() >= self.cap);
	}

	/// Storage grew only if it had to, to hold everything up to `end`
	pub fn grown<S: Full>(&self, s: &S, end: usize) {
		if split(end <= self.cap) {
			prove("C07: capacity changed though there was enough room", s.capacity() == self.cap);
			prove("C07: memory moved though there was enough room", s.as_ptr() == self.ptr);
		} else {
			prove("C07: capacity is insufficient after growth", s.capacity() >= end);
		}
	}
}

// Not limited in size
pub type W1 = AlignedVec<16, 16, 1>;
pub type W2 = AlignedVec<16, 8, 2>;
pub type W4 = AlignedVec<64, 32, 4, { ser_raw::util::aligned_max_capacity(64) }>;
pub type W8 = AlignedVec<8, 8, 8>;
pub type W16 = AlignedVec<32, 16, 16, { ser_raw::util::aligned_max_capacity(32) }>;

// Unusual ones
pub type Huge = AlignedVec<{ 1 << 32 }, 4096, 256, { ser_raw::util::aligned_max_capacity(1 << 32) }>;
pub type Odd = AlignedVec<65536, 65536, 1, { 3 * 65536 }>;
pub type Two = AlignedVec<2, 2, 2, { (1 << 40) + 2 }>;
pub type Four = AlignedVec<4, 1, 1, 7>;
pub type Line = AlignedVec<64, 64, 64, { ser_raw::util::aligned_max_capacity(64) }>;
pub type Sector = AlignedVec<512, 128, 32, { 5 * 128 }>;
pub type K2 = AlignedVec<2048, 1024, 8, { ser_raw::util::aligned_max_capacity(2048) }>;
