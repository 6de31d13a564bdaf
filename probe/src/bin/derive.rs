//! Shapes of types which `derive(Serialize)` has to deal with
#![allow(dead_code)]
use probe::{probes, st::*, visits::*};
use ser_raw::{
	ser_traits::PosTracking, CompleteSerializer, PtrOffsetSerializer, PureCopySerializer, Serialize, SerializeWith,
};
use std::marker::PhantomData;

mod complete {
	use super::*;
	probe::mk!(CompleteSerializer);
}
mod offset {
	use super::*;
	probe::mk!(PtrOffsetSerializer);
}
mod pure {
	use super::*;
	probe::mk!(PureCopySerializer);
}
use complete::Mk as C;
use offset::Mk as O;
use pure::Mk as P;
type S = A16;
type CS = complete::Ser<S>;
type OS = offset::Ser<S>;
type PS = pure::Ser<S>;
type L = Listed<u32>;

fn anyv<T>() -> T {
	unsafe { std::ptr::read(any_ref::<T>()) }
}

fn item() -> L {
	anyv()
}

pub struct Proxy;
impl<S: ser_raw::Serializer> SerializeWith<Foreign, S> for Proxy {
	fn serialize_data_with(x: &Foreign, _: &mut S) {
		visited(x);
	}
}

pub struct AlienProxy;
impl<T, S: ser_raw::Serializer> SerializeWith<Alien<T>, S> for AlienProxy {
	fn serialize_data_with(x: &Alien<T>, _: &mut S) {
		visited(x);
	}
}

pub struct Skip;
impl<T: ?Sized, S: ser_raw::Serializer> SerializeWith<PhantomData<T>, S> for Skip {
	fn serialize_data_with(_: &PhantomData<T>, _: &mut S) {}
}

pub mod proxies {
	use super::*;
	pub struct Deep;
	impl<S: ser_raw::Serializer> SerializeWith<Foreign, S> for Deep {
		fn serialize_data_with(x: &Foreign, _: &mut S) {
			visited(x);
		}
	}
	pub struct Generic<T>(T);
	impl<T, S: ser_raw::Serializer> SerializeWith<Foreign, S> for Generic<T> {
		fn serialize_data_with(x: &Foreign, _: &mut S) {
			visited(x);
		}
	}
}

pub struct NeedsPos(u32);
impl<S: PosTracking> Serialize<S> for NeedsPos {
	fn serialize_data(&self, _: &mut S) {
		visited(self);
	}
}

pub trait Extra<T> {}
impl<S: ser_raw::Serializer> Extra<u8> for S {}
pub struct NeedsExtra(u32);
impl<S: ser_raw::Serializer + Extra<u8>> Serialize<S> for NeedsExtra {
	fn serialize_data(&self, _: &mut S) {
		visited(self);
	}
}

#[derive(Serialize)]
pub struct Named { a: L, b: L, c: L }

#[derive(Serialize)]
pub struct Mixed { a: Listed<u8>, b: Listed<u64>, c: Listed<u16>, d: Listed<u128>, e: Listed<[u8; 3]> }

#[derive(Serialize)]
pub struct One1 { only: L }

#[derive(Serialize)]
pub struct Tup(L, L, L, L);

#[derive(Serialize)]
pub struct New(L);

#[derive(Serialize)]
pub struct Tup12(L, L, L, L, L, L, L, L, L, L, L, L);

#[derive(Serialize)]
pub struct Unit;

#[derive(Serialize)]
pub struct EmptyNamed {}

#[derive(Serialize)]
pub struct EmptyTuple();

#[derive(Serialize)]
pub struct Between { a: u8, b: L, c: u64, d: L, e: bool }

#[derive(Serialize)]
pub struct Nest { a: L, n: Named, t: (L, [L; 2]), o: Tup, z: L }

#[derive(Serialize)]
#[allow(non_camel_case_types)]
pub struct r#Struct { r#type: L, r#fn: L, r#match: L }

#[derive(Serialize)]
#[allow(non_camel_case_types)]
pub struct r#mod { a: L }

#[derive(Serialize)]
pub struct Confusing { serializer: L, ser: L, __s: L, val_0: L, value: L, this: L, data: L }

#[derive(Serialize)]
/// Docs
#[repr(C)]
#[allow(dead_code)]
pub struct Docs {
	/// Docs
	#[allow(unused)]
	pub a: L,
	#[doc = "b"]
	pub(crate) b: L,
	pub(self) c: L,
	pub(in crate) d: L,
}

#[derive(Serialize)]
#[repr(C, align(16))]
pub struct Aligned { a: L, b: L }

#[derive(Serialize)]
#[repr(transparent)]
pub struct Transparent { a: L }

#[derive(Serialize)]
#[repr(C, packed)]
pub struct Packed { a: Listed<u8>, b: Listed<[u8; 3]> }

#[derive(Serialize)]
pub struct ConstGen<const N: usize> { a: L, b: [L; N] }

#[derive(Serialize)]
pub struct ConstDef<const N: usize = 2, const B: bool = true> { a: [L; N] }

#[derive(Serialize)]
pub struct Phantom<'a, T: ?Sized> { a: L, #[ser_with(Skip)] p: PhantomData<&'a T>, b: L }

#[derive(Serialize)]
pub struct PhantomBound<'a, 'b: 'a, T, U = u8> where T: Copy + 'a, U: 'b { a: L, #[ser_with(Skip)] p: PhantomData<(&'a T, &'b U)> }

#[derive(Serialize)]
pub struct NamedS<S, Ser, T> { a: L, #[ser_with(Skip)] p: PhantomData<(S, Ser, T)>, b: L }

#[derive(Serialize)]
pub struct WhereSelf<T> where T: Clone, T: Sized, Vec<T>: Clone, { a: L, #[ser_with(Skip)] p: PhantomData<T> }

#[derive(Serialize)]
pub struct GenericWith<T> { #[ser_with(AlienProxy)] t: Alien<T>, a: L, #[ser_with(AlienProxy)] u: Alien<[T; 2]> }

#[derive(Serialize)]
pub struct WithAll { #[ser_with(Proxy)] a: Foreign, #[ser_with(Proxy)] b: Foreign }

#[derive(Serialize)]
pub struct WithSome { a: L, #[ser_with(Proxy)] b: Foreign, c: L, #[ser_with(proxies::Deep)] d: Foreign, #[ser_with(self::proxies::Generic::<u8>)] e: Foreign, #[ser_with(proxies::Generic<u16>)] f: Foreign }

#[derive(Serialize)]
pub struct WithTuple(#[ser_with(Proxy)] Foreign, L, #[ser_with(Proxy)] pub Foreign);

#[derive(Serialize)]
#[ser_bound(PosTracking)]
pub struct Bound { a: L, b: NeedsPos }

#[derive(Serialize)]
#[ser_bound(ser_raw::ser_traits::PosTracking)]
pub struct BoundPath { a: NeedsPos }

#[derive(Serialize)]
#[ser_bound(Extra<u8>)]
pub struct BoundGeneric { a: L, b: NeedsExtra }

#[derive(Serialize)]
pub enum Units { A, B, C }

#[derive(Serialize)]
pub enum Kinds { A, B(L), C(L, L, L), D { a: L }, E { z: L, y: L, x: Listed<u64> }, F(), G {}, H(u8), I(L, u8, L) }

#[derive(Serialize)]
pub enum Single { A(L, L) }

#[derive(Serialize)]
pub enum SingleUnit { A }

#[derive(Serialize)]
pub enum NoUnits { A(L), B { b: L } }

#[derive(Serialize)]
#[repr(u8)]
pub enum Repr { A = 3, B = 9, C = 200 }

#[derive(Serialize)]
#[repr(C)]
pub enum ReprC { A(L, L), B { x: u8, y: L } }

#[derive(Serialize)]
pub enum With<T> { A(#[ser_with(Proxy)] Foreign, L, #[ser_with(Proxy)] Foreign), B { a: L, #[ser_with(proxies::Generic<u16>)] b: Foreign, #[ser_with(AlienProxy)] c: Alien<T>, d: L }, C(#[ser_with(AlienProxy)] Alien<[T; 3]>), D }

#[derive(Serialize)]
#[allow(non_camel_case_types)]
pub enum RawE { r#struct { r#type: L, r#in: L, x: L }, r#fn(L), r#enum }

#[derive(Serialize)]
pub enum Conf { A { serializer: L, val_0: L, val_1: L, val_serializer: L, __s: L }, Serialize(L), Some(L), None }

#[derive(Serialize)]
pub enum Swapped { A { val_1: L, val_0: L, b: L, a: L } }

#[derive(Serialize)]
pub enum GenE<'a, T, const N: usize> where T: Clone { A([L; N]), B { a: L, #[ser_with(Skip)] p: PhantomData<&'a T>, b: [L; N] }, C }

#[derive(Serialize)]
#[ser_bound(Extra<u8>)]
pub enum BoundE { A(NeedsExtra, L), B }

#[derive(Serialize)]
pub enum NestE { A(Option<L>, (L, L), Named), B(Box<NestE>), C(Vec<NestE>), Z }

#[derive(Serialize)]
pub enum Many { V0(L), V1(L, L), V2(L, L, L), V3(L, L, L, L), V4(L, L, L, L, L), V5(L, L, L, L, L, L), V6(L, L, L, L, L, L, L), V7(L, L, L, L, L, L, L, L), V8(L, L, L, L, L, L, L, L, L), V9(L, L, L, L, L, L, L, L, L, L), V10(L, L, L, L, L, L, L, L, L, L, L), V11(L, L, L, L, L, L, L, L, L, L, L, L), V12(L, L, L, L, L, L, L, L, L, L, L, L, L), V13(L, L, L, L, L, L, L, L, L, L, L, L, L, L), V14(L, L, L, L, L, L, L, L, L, L, L, L, L, L, L), V15(L, L, L, L, L, L, L, L, L, L, L, L, L, L, L, L) }

#[derive(Serialize)]
pub enum Never {}

fn never<S: ser_raw::Serializer>() -> fn(&Never, &mut S) { <Never as Serialize<S>>::serialize_data }

pub struct TypeName;
impl<T, S: ser_raw::Serializer> SerializeWith<PhantomData<T>, S> for TypeName {
	fn serialize_data_with(x: &PhantomData<T>, _: &mut S) {
		visited(x);
	}
}
impl<S: ser_raw::Serializer> SerializeWith<(), S> for TypeName {
	fn serialize_data_with(x: &(), _: &mut S) {
		visited(x);
	}
}
impl<S: ser_raw::Serializer> SerializeWith<u64, S> for TypeName {
	fn serialize_data_with(x: &u64, _: &mut S) {
		visited(x);
	}
}
impl<'a, T: ?Sized, S: ser_raw::Serializer> SerializeWith<&'a T, S> for TypeName {
	fn serialize_data_with(x: &&'a T, _: &mut S) {
		visited(x);
	}
}
impl<S: ser_raw::Serializer> SerializeWith<fn(u8) -> u8, S> for TypeName {
	fn serialize_data_with(x: &fn(u8) -> u8, _: &mut S) {
		visited(x);
	}
}
impl<S: ser_raw::Serializer> SerializeWith<[u8; 4], S> for TypeName {
	fn serialize_data_with(x: &[u8; 4], _: &mut S) {
		visited(x);
	}
}
fn same(x: u8) -> u8 {
	x
}

/// Proxies are called for types which have no data of their own as for any other
#[derive(Serialize)]
pub struct PhantomWith<T> { a: L, #[ser_with(TypeName)] p: PhantomData<T>, #[ser_with(TypeName)] u: (), #[ser_with(TypeName)] n: u64, #[ser_with(TypeName)] b: [u8; 4] }
#[derive(Serialize)]
pub struct PhantomTuple<T>(#[ser_with(TypeName)] std::marker::PhantomData<T>, L, #[ser_with(TypeName)] u64);
#[derive(Serialize)]
pub enum PhantomEnum<T> { A { #[ser_with(TypeName)] p: PhantomData<T>, a: L }, B(#[ser_with(TypeName)] PhantomData<T>, #[ser_with(TypeName)] u64), C(#[ser_with(TypeName)] ()) }
#[derive(Serialize)]
pub struct Pointers<'a> { #[ser_with(TypeName)] r: &'a u32, a: L, #[ser_with(TypeName)] f: fn(u8) -> u8 }

/// Types with names of others
#[allow(non_camel_case_types)]
mod names {
	use super::L;
	use ser_raw::Serialize;
	#[derive(Serialize)]
	pub struct u8(pub L);
	#[derive(Serialize)]
	pub struct bool { pub a: L }
	#[derive(Serialize)]
	pub struct f64(pub L, pub L);
	#[derive(Serialize)]
	pub struct PhantomData(pub L);
	#[derive(Serialize)]
	pub struct String(pub L);
	#[derive(Serialize)]
	pub struct Option<const N: usize>(pub [L; N]);
	#[derive(Serialize)]
	pub struct All { pub a: u8, pub b: bool, pub c: f64, pub d: PhantomData, pub e: String, pub f: Option<1> }
	#[derive(Serialize)]
	pub struct Tup(pub u8, pub bool, pub f64, pub PhantomData, pub String);
	#[derive(Serialize)]
	pub enum En { A(u8, PhantomData), B { a: bool, b: String } }
}
#[derive(Serialize)]
pub struct NamedAs { a: names::u8, b: names::PhantomData, c: self::names::bool }

type Alias = L;
type u16x = L;

/// Types written in many ways
#[derive(Serialize)]
pub struct Written { a: Alias, b: (L), c: crate::L, d: [L; 1 + 1], e: [(L, u8); 1], f: ((L,), [L; 0]), g: Option<Option<L>>, h: u16x, i: <u8 as Assoc>::Item }
pub trait Assoc { type Item; }
impl Assoc for u8 { type Item = L; }

/// Types without size, in line
pub struct Nil;
impl<S: ser_raw::Serializer> Serialize<S> for Nil {
	fn serialize_data(&self, _: &mut S) {
		visited(self);
	}
}
#[derive(Serialize)]
pub struct Nils { a: Nil, b: L, c: Nil, d: (Nil,), e: [Nil; 2] }
#[derive(Serialize)]
pub struct OnlyNils(Nil, Nil);
#[derive(Serialize)]
pub enum NilEnum { A(Nil), B { a: Nil, b: L }, C }
#[derive(Serialize)]
pub enum NilOnly { A(Nil, Nil) }

#[derive(Serialize, Clone, Copy, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub enum Attrs { #[default] A, /** docs */ B, #[allow(dead_code)] #[doc(hidden)] C = 40, #[cfg(any())] Gone }
#[derive(Serialize)]
#[repr(u8)]
pub enum Discr { A(L) = 5, B { #[cfg_attr(all(), ser_with(Proxy))] a: Foreign, #[cfg(any())] gone: Unknown, #[doc = "x"] b: L } = 3 + 1, C = b'c' }
#[derive(Serialize)]
pub struct Cfg { #[cfg(any())] gone: Unknown, #[cfg(all())] a: L, #[cfg_attr(all(), ser_with(Proxy))] #[allow(unused)] b: Foreign, #[cfg_attr(any(), ser_with(Unknown))] c: L }
#[derive(Serialize)]
pub enum UnitsAround { A, B(L), C, D(), E { a: L }, F {}, G }
#[derive(Serialize)]
pub enum OneOfTwo { A, B(L) }
#[derive(Serialize)]
pub enum PlainFields { A(u8), B { x: u64, y: L, z: () }, C(bool, char, L) }

/// Deeply generic
#[derive(Serialize)]
pub struct Generic<'a, T: 'a + Clone + Copy, U, const N: usize, const CHAR: char>
where
	U: Iterator<Item = T>,
	for<'x> &'x T: Sized,
	[L; N]: Sized,
{
	a: [L; N],
	#[ser_with(TypeName)]
	t: &'a T,
	#[ser_with(TypeName)]
	u: PhantomData<U>,
	b: L,
}
type Gen = Generic<'static, u8, std::option::IntoIter<u8>, 2, 'x'>;

/// More fields than letters
#[derive(Serialize)]
pub struct Thirty { a0: L, a1: L, a2: L, a3: L, a4: L, a5: L, a6: L, a7: L, a8: L, a9: L, a10: L, a11: L, a12: L, a13: L, a14: L, a15: L, a16: L, a17: L, a18: L, a19: L, a20: L, a21: L, a22: L, a23: L, a24: L, a25: L, a26: L, a27: L, a28: L, a29: L }

fn local() {
	#[derive(Serialize)]
	struct Local { a: L, b: L }
	derived::<S, CS, Local>(C::own, Local { a: item(), b: item() }, |v| { expect(0, &v.a); expect(1, &v.b); 2 });
}

mod shadowed {
	#![allow(dead_code)]
	use super::{L, item};
	use ser_raw::Serialize as S;
	struct Option; struct Result; struct Vec; struct Some; struct Ok; struct Box; struct String;
	mod core {} mod std {} trait Serializer {} trait Serialize {} trait SerializeWith {}
	#[derive(S)]
	pub struct Shadow { pub a: L, pub b: L }
	pub fn shadow() -> Shadow { Shadow { a: item(), b: item() } }
}

macro_rules! by_macro {
	($name:ident, $($f:ident: $t:ty),*) => {
		#[derive(Serialize)]
		pub struct $name { $($f: $t),* }
	};
}
by_macro!(ByMacro, a: L, b: L);

macro_rules! enum_by_macro {
	($name:ident, $v:ident { $($f:ident: $t:ty),* }, $w:ident($u:ty)) => {
		#[derive(Serialize)]
		pub enum $name { $v { $($f: $t),* }, $w($u, $u), Own { own: $u, $($f: $t),* } }
	};
}
enum_by_macro!(EnumByMacro, A { a: L, serializer: L }, B(L));

macro_rules! with_by_macro {
	($name:ident, $g:ident, $p:path, $t:ty) => {
		#[derive(Serialize)]
		pub struct $name<$g>(#[ser_with($p)] $t, L, #[ser_with(Skip)] PhantomData<$g>);
	};
}
with_by_macro!(WithByMacro, X, Proxy, Foreign);

probes! {
	named: derived::<S, CS, _>(C::own, anyv::<Named>(), |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); 3 });
	mixed: derived::<S, OS, _>(O::own, anyv::<Mixed>(), |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); expect(3, &v.d); expect(4, &v.e); 5 });
	one: derived::<S, PS, _>(P::own, anyv::<One1>(), |v| { expect(0, &v.only); 1 });
	tuple: derived::<S, CS, _>(C::own, anyv::<Tup>(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); 4 });
	newtype: derived::<S, OS, _>(O::own, anyv::<New>(), |v| { expect(0, &v.0); 1 });
	tuple_12: derived::<S, PS, _>(P::own, anyv::<Tup12>(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); expect(3, &v.3); expect(4, &v.4); expect(5, &v.5); expect(6, &v.6); expect(7, &v.7); expect(8, &v.8); expect(9, &v.9); expect(10, &v.10); expect(11, &v.11); 12 });
	unit: derived::<S, CS, _>(C::own, anyv::<Unit>(), |v| {  0 });
	empty_named: derived::<S, OS, _>(O::own, anyv::<EmptyNamed>(), |v| {  0 });
	empty_tuple: derived::<S, PS, _>(P::own, anyv::<EmptyTuple>(), |v| {  0 });
	plain_between: derived::<S, CS, _>(C::own, anyv::<Between>(), |v| { expect(0, &v.b); expect(1, &v.d); 2 });
	nested: derived::<S, OS, _>(O::own, anyv::<Nest>(), |v| { expect(0, &v.a); expect(1, &v.n.a); expect(2, &v.n.b); expect(3, &v.n.c); expect(4, &v.t.0); expect(5, &v.t.1[0]); expect(6, &v.t.1[1]); expect(7, &v.o.0); expect(8, &v.o.1); expect(9, &v.o.2); expect(10, &v.o.3); expect(11, &v.z); 12 });
	raw_idents: derived::<S, PS, _>(P::own, anyv::<r#Struct>(), |v| { expect(0, &v.r#type); expect(1, &v.r#fn); expect(2, &v.r#match); 3 });
	raw_name: derived::<S, CS, _>(C::own, anyv::<r#mod>(), |v| { expect(0, &v.a); 1 });
	confusing: derived::<S, OS, _>(O::own, anyv::<Confusing>(), |v| { expect(0, &v.serializer); expect(1, &v.ser); expect(2, &v.__s); expect(3, &v.val_0); expect(4, &v.value); expect(5, &v.this); expect(6, &v.data); 7 });
	docs: derived::<S, PS, _>(P::own, anyv::<Docs>(), |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); expect(3, &v.d); 4 });
	aligned: derived::<S, CS, _>(C::own, anyv::<Aligned>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	transparent: derived::<S, OS, _>(O::own, anyv::<Transparent>(), |v| { expect(0, &v.a); 1 });
	packed: derived::<S, PS, _>(P::own, anyv::<Packed>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	const_generic: derived::<S, CS, _>(C::own, anyv::<ConstGen<2>>(), |v| { expect(0, &v.a); expect(1, &v.b[0]); expect(2, &v.b[1]); 3 });
	const_default: derived::<S, OS, _>(O::own, anyv::<ConstDef>(), |v| { expect(0, &v.a[0]); expect(1, &v.a[1]); 2 });
	phantom: derived::<S, PS, _>(P::own, anyv::<Phantom<'static, str>>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	phantom_bound: derived::<S, CS, _>(C::own, anyv::<PhantomBound<'static, 'static, u16>>(), |v| { expect(0, &v.a); 1 });
	type_named_s: derived::<S, OS, _>(O::own, anyv::<NamedS<u8, u8, u8>>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	where_self: derived::<S, PS, _>(P::own, anyv::<WhereSelf<u8>>(), |v| { expect(0, &v.a); 1 });
	generic_with: derived::<S, CS, _>(C::own, anyv::<GenericWith<u32>>(), |v| { expect(0, &v.t); expect(1, &v.a); expect(2, &v.u); 3 });
	with_all: derived::<S, OS, _>(O::own, anyv::<WithAll>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	with_some: derived::<S, PS, _>(P::own, anyv::<WithSome>(), |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); expect(3, &v.d); expect(4, &v.e); expect(5, &v.f); 6 });
	with_tuple: derived::<S, CS, _>(C::own, anyv::<WithTuple>(), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); 3 });
	bound: derived::<S, OS, _>(O::own, anyv::<Bound>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	bound_path: derived::<S, OS, _>(O::own, anyv::<BoundPath>(), |v| { expect(0, &v.a); 1 });
	bound_generic: derived::<S, CS, _>(C::own, anyv::<BoundGeneric>(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	enum_units_0: derived::<S, OS, Units>(O::own, Units::A, |v| { if let Units::A = v {  0 } else { unreachable!() } });
	enum_units_1: derived::<S, PS, Units>(P::own, Units::C, |v| { if let Units::C = v {  0 } else { unreachable!() } });
	enum_mixed_0: derived::<S, CS, Kinds>(C::own, Kinds::A, |v| { if let Kinds::A = v {  0 } else { unreachable!() } });
	enum_mixed_1: derived::<S, OS, Kinds>(O::own, Kinds::B(item()), |v| { if let Kinds::B(a) = v { expect(0, a); 1 } else { unreachable!() } });
	enum_mixed_2: derived::<S, PS, Kinds>(P::own, Kinds::C(item(), item(), item()), |v| { if let Kinds::C(a, b, c) = v { expect(0, a); expect(1, b); expect(2, c); 3 } else { unreachable!() } });
	enum_mixed_3: derived::<S, CS, Kinds>(C::own, Kinds::D { a: item() }, |v| { if let Kinds::D { a } = v { expect(0, a); 1 } else { unreachable!() } });
	enum_mixed_4: derived::<S, OS, Kinds>(O::own, Kinds::E { x: anyv(), y: item(), z: item() }, |v| { if let Kinds::E { z, y, x } = v { expect(0, z); expect(1, y); expect(2, x); 3 } else { unreachable!() } });
	enum_mixed_5: derived::<S, PS, Kinds>(P::own, Kinds::F(), |v| { if let Kinds::F() = v {  0 } else { unreachable!() } });
	enum_mixed_6: derived::<S, CS, Kinds>(C::own, Kinds::G {}, |v| { if let Kinds::G {} = v {  0 } else { unreachable!() } });
	enum_mixed_7: derived::<S, OS, Kinds>(O::own, Kinds::H(1), |v| { if let Kinds::H(_) = v {  0 } else { unreachable!() } });
	enum_mixed_8: derived::<S, PS, Kinds>(P::own, Kinds::I(item(), 2, item()), |v| { if let Kinds::I(a, _, b) = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	enum_single_0: derived::<S, CS, Single>(C::own, Single::A(item(), item()), |v| { if let Single::A(a, b) = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	enum_single_unit_0: derived::<S, OS, SingleUnit>(O::own, SingleUnit::A, |v| { if let SingleUnit::A = v {  0 } else { unreachable!() } });
	enum_no_units_0: derived::<S, PS, NoUnits>(P::own, NoUnits::A(item()), |v| { if let NoUnits::A(a) = v { expect(0, a); 1 } else { unreachable!() } });
	enum_no_units_1: derived::<S, CS, NoUnits>(C::own, NoUnits::B { b: item() }, |v| { if let NoUnits::B { b } = v { expect(0, b); 1 } else { unreachable!() } });
	enum_repr_0: derived::<S, OS, Repr>(O::own, Repr::A, |v| { if let Repr::A = v {  0 } else { unreachable!() } });
	enum_repr_1: derived::<S, PS, Repr>(P::own, Repr::C, |v| { if let Repr::C = v {  0 } else { unreachable!() } });
	enum_repr_c_0: derived::<S, CS, ReprC>(C::own, ReprC::A(item(), item()), |v| { if let ReprC::A(a, b) = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	enum_repr_c_1: derived::<S, OS, ReprC>(O::own, ReprC::B { x: 1, y: item() }, |v| { if let ReprC::B { y, .. } = v { expect(0, y); 1 } else { unreachable!() } });
	enum_with_0: derived::<S, PS, With<u16>>(P::own, With::A(anyv(), item(), anyv()), |v| { if let With::A(a, b, c) = v { expect(0, a); expect(1, b); expect(2, c); 3 } else { unreachable!() } });
	enum_with_1: derived::<S, CS, With<u16>>(C::own, With::B { a: item(), b: anyv(), c: anyv(), d: item() }, |v| { if let With::B { a, b, c, d } = v { expect(0, a); expect(1, b); expect(2, c); expect(3, d); 4 } else { unreachable!() } });
	enum_with_2: derived::<S, OS, With<u16>>(O::own, With::C(anyv()), |v| { if let With::C(a) = v { expect(0, a); 1 } else { unreachable!() } });
	enum_with_3: derived::<S, PS, With<u16>>(P::own, With::D, |v| { if let With::D = v {  0 } else { unreachable!() } });
	enum_raw_0: derived::<S, CS, RawE>(C::own, RawE::r#struct { r#type: item(), r#in: item(), x: item() }, |v| { if let RawE::r#struct { r#type: a, r#in: b, x: c } = v { expect(0, a); expect(1, b); expect(2, c); 3 } else { unreachable!() } });
	enum_raw_1: derived::<S, OS, RawE>(O::own, RawE::r#fn(item()), |v| { if let RawE::r#fn(a) = v { expect(0, a); 1 } else { unreachable!() } });
	enum_raw_2: derived::<S, PS, RawE>(P::own, RawE::r#enum, |v| { if let RawE::r#enum = v {  0 } else { unreachable!() } });
	enum_confusing_0: derived::<S, CS, Conf>(C::own, Conf::A { serializer: item(), val_0: item(), val_1: item(), val_serializer: item(), __s: item() }, |v| { if let Conf::A { serializer: a, val_0: b, val_1: c, val_serializer: d, __s: e } = v { expect(0, a); expect(1, b); expect(2, c); expect(3, d); expect(4, e); 5 } else { unreachable!() } });
	enum_confusing_1: derived::<S, OS, Conf>(O::own, Conf::Serialize(item()), |v| { if let Conf::Serialize(a) = v { expect(0, a); 1 } else { unreachable!() } });
	enum_confusing_2: derived::<S, PS, Conf>(P::own, Conf::Some(item()), |v| { if let Conf::Some(a) = v { expect(0, a); 1 } else { unreachable!() } });
	enum_confusing_3: derived::<S, CS, Conf>(C::own, Conf::None, |v| { if let Conf::None = v {  0 } else { unreachable!() } });
	enum_swapped_0: derived::<S, OS, Swapped>(O::own, Swapped::A { val_1: item(), val_0: item(), b: item(), a: item() }, |v| { if let Swapped::A { val_1: a, val_0: b, b: c, a: d } = v { expect(0, a); expect(1, b); expect(2, c); expect(3, d); 4 } else { unreachable!() } });
	enum_generic_0: derived::<S, PS, GenE<'static, u8, 2>>(P::own, GenE::A([item(), item()]), |v| { if let GenE::A(a) = v { expect(0, &a[0]); expect(1, &a[1]); 2 } else { unreachable!() } });
	enum_generic_1: derived::<S, CS, GenE<'static, u8, 2>>(C::own, GenE::B { a: item(), p: PhantomData, b: [item(), item()] }, |v| { if let GenE::B { a, b, .. } = v { expect(0, a); expect(1, &b[0]); expect(2, &b[1]); 3 } else { unreachable!() } });
	enum_generic_2: derived::<S, OS, GenE<'static, u8, 2>>(O::own, GenE::C, |v| { if let GenE::C = v {  0 } else { unreachable!() } });
	enum_bound_0: derived::<S, PS, BoundE>(P::own, BoundE::A(anyv(), item()), |v| { if let BoundE::A(a, b) = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	enum_bound_1: derived::<S, CS, BoundE>(C::own, BoundE::B, |v| { if let BoundE::B = v {  0 } else { unreachable!() } });
	enum_nested_0: derived::<S, OS, NestE>(O::own, NestE::A(Some(item()), (item(), item()), anyv()), |v| { if let NestE::A(Some(a), b, c) = v { expect(0, a); expect(1, &b.0); expect(2, &b.1); expect(3, &c.a); expect(4, &c.b); expect(5, &c.c); 6 } else { unreachable!() } });
	enum_nested_1: derived::<S, PS, NestE>(P::own, NestE::Z, |v| { if let NestE::Z = v {  0 } else { unreachable!() } });
	enum_16_0: derived::<S, CS, Many>(C::own, Many::V0(item()), |v| { if let Many::V0(x0) = v { expect(0, x0); 1 } else { unreachable!() } });
	enum_16_1: derived::<S, OS, Many>(O::own, Many::V7(item(), item(), item(), item(), item(), item(), item(), item()), |v| { if let Many::V7(x0, x1, x2, x3, x4, x5, x6, x7) = v { expect(0, x0); expect(1, x1); expect(2, x2); expect(3, x3); expect(4, x4); expect(5, x5); expect(6, x6); expect(7, x7); 8 } else { unreachable!() } });
	enum_16_2: derived::<S, PS, Many>(P::own, Many::V15(item(), item(), item(), item(), item(), item(), item(), item(), item(), item(), item(), item(), item(), item(), item(), item()), |v| { if let Many::V15(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) = v { expect(0, x0); expect(1, x1); expect(2, x2); expect(3, x3); expect(4, x4); expect(5, x5); expect(6, x6); expect(7, x7); expect(8, x8); expect(9, x9); expect(10, x10); expect(11, x11); expect(12, x12); expect(13, x13); expect(14, x14); expect(15, x15); 16 } else { unreachable!() } });
	local: local();
	shadow: derived::<S, CS, shadowed::Shadow>(C::own, shadowed::shadow(), |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	enum_by_macro_0: derived::<S, CS, EnumByMacro>(C::own, EnumByMacro::A { a: item(), serializer: item() }, |v| { if let EnumByMacro::A { a, serializer } = v { expect(0, a); expect(1, serializer); 2 } else { unreachable!() } });
	enum_by_macro_1: derived::<S, OS, EnumByMacro>(O::own, EnumByMacro::B(item(), item()), |v| { if let EnumByMacro::B(a, b) = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	enum_by_macro_2: derived::<S, OS, EnumByMacro>(O::own, EnumByMacro::Own { own: item(), a: item(), serializer: item() }, |v| { if let EnumByMacro::Own { own, a, serializer } = v { expect(0, own); expect(1, a); expect(2, serializer); 3 } else { unreachable!() } });
	with_by_macro: derived::<S, PS, WithByMacro<u8>>(P::own, anyv(), |v| { expect(0, &v.0); expect(1, &v.1); 2 });
	by_macro: derived::<S, CS, ByMacro>(C::own, ByMacro { a: item(), b: item() }, |v| { expect(0, &v.a); expect(1, &v.b); 2 });
	phantom_with: derived::<S, CS, _>(C::own, PhantomWith::<u16> { a: item(), p: PhantomData, u: (), n: anyv(), b: anyv() }, |v| { expect(0, &v.a); expect(1, &v.p); expect(2, &v.u); expect(3, &v.n); expect(4, &v.b); 5 });
	phantom_tuple: derived::<S, OS, _>(O::own, PhantomTuple::<String>(PhantomData, item(), 1), |v| { expect(0, &v.0); expect(1, &v.1); expect(2, &v.2); 3 });
	phantom_enum_0: derived::<S, PS, PhantomEnum<u8>>(P::own, PhantomEnum::A { p: PhantomData, a: item() }, |v| { if let PhantomEnum::A { p, a } = v { expect(0, p); expect(1, a); 2 } else { unreachable!() } });
	phantom_enum_1: derived::<S, CS, PhantomEnum<u8>>(C::own, PhantomEnum::B(PhantomData, 2), |v| { if let PhantomEnum::B(p, a) = v { expect(0, p); expect(1, a); 2 } else { unreachable!() } });
	phantom_enum_2: derived::<S, OS, PhantomEnum<u8>>(O::own, PhantomEnum::C(()), |v| { if let PhantomEnum::C(p) = v { expect(0, p); 1 } else { unreachable!() } });
	pointers: derived::<S, PS, _>(P::own, Pointers { r: &7, a: item(), f: same }, |v| { expect(0, &v.r); expect(1, &v.a); expect(2, &v.f); 3 });
	named_as: derived::<S, CS, _>(C::own, anyv::<NamedAs>(), |v| { expect(0, &v.a.0); expect(1, &v.b.0); expect(2, &v.c.a); 3 });
	named_as_all: derived::<S, OS, _>(O::own, anyv::<names::All>(), |v| { expect(0, &v.a.0); expect(1, &v.b.a); expect(2, &v.c.0); expect(3, &v.c.1); expect(4, &v.d.0); expect(5, &v.e.0); expect(6, &v.f.0[0]); 7 });
	named_as_tuple: derived::<S, PS, _>(P::own, anyv::<names::Tup>(), |v| { expect(0, &v.0.0); expect(1, &v.1.a); expect(2, &v.2.0); expect(3, &v.2.1); expect(4, &v.3.0); expect(5, &v.4.0); 6 });
	named_as_enum_0: derived::<S, CS, _>(C::own, names::En::A(anyv(), anyv()), |v| { if let names::En::A(a, b) = v { expect(0, &a.0); expect(1, &b.0); 2 } else { unreachable!() } });
	named_as_enum_1: derived::<S, OS, _>(O::own, names::En::B { a: anyv(), b: anyv() }, |v| { if let names::En::B { a, b } = v { expect(0, &a.a); expect(1, &b.0); 2 } else { unreachable!() } });
	written: derived::<S, PS, _>(P::own, Written { a: item(), b: item(), c: item(), d: anyv(), e: anyv(), f: anyv(), g: Some(Some(item())), h: item(), i: item() }, |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); expect(3, &v.d[0]); expect(4, &v.d[1]); expect(5, &v.e[0].0); expect(6, &v.f.0.0); if let Some(Some(g)) = &v.g { expect(7, g); } expect(8, &v.h); expect(9, &v.i); 10 });
	nils: derived::<S, CS, _>(C::own, anyv::<Nils>(), |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); expect(3, &v.d.0); expect(4, &v.e[0]); expect(5, &v.e[1]); 6 });
	only_nils: derived::<S, OS, _>(O::own, OnlyNils(Nil, Nil), |v| { expect(0, &v.0); expect(1, &v.1); 2 });
	nil_enum_0: derived::<S, PS, NilEnum>(P::own, NilEnum::A(Nil), |v| { if let NilEnum::A(a) = v { expect(0, a); 1 } else { unreachable!() } });
	nil_enum_1: derived::<S, CS, NilEnum>(C::own, NilEnum::B { a: Nil, b: item() }, |v| { if let NilEnum::B { a, b } = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	nil_only: derived::<S, OS, NilOnly>(O::own, NilOnly::A(Nil, Nil), |v| { let NilOnly::A(a, b) = v; expect(0, a); expect(1, b); 2 });
	attrs: derived::<S, PS, Attrs>(P::own, Attrs::C, |_| 0);
	discr_0: derived::<S, CS, Discr>(C::own, Discr::A(item()), |v| { if let Discr::A(a) = v { expect(0, a); 1 } else { unreachable!() } });
	discr_1: derived::<S, OS, Discr>(O::own, Discr::B { a: anyv(), b: item() }, |v| { if let Discr::B { a, b } = v { expect(0, a); expect(1, b); 2 } else { unreachable!() } });
	discr_2: derived::<S, PS, Discr>(P::own, Discr::C, |_| 0);
	cfg: derived::<S, CS, _>(C::own, anyv::<Cfg>(), |v| { expect(0, &v.a); expect(1, &v.b); expect(2, &v.c); 3 });
	units_around_0: derived::<S, OS, UnitsAround>(O::own, UnitsAround::B(item()), |v| { if let UnitsAround::B(a) = v { expect(0, a); 1 } else { unreachable!() } });
	units_around_1: derived::<S, PS, UnitsAround>(P::own, UnitsAround::E { a: item() }, |v| { if let UnitsAround::E { a } = v { expect(0, a); 1 } else { unreachable!() } });
	units_around_2: derived::<S, CS, UnitsAround>(C::own, UnitsAround::G, |_| 0);
	one_of_two_0: derived::<S, OS, OneOfTwo>(O::own, OneOfTwo::A, |_| 0);
	one_of_two_1: derived::<S, PS, OneOfTwo>(P::own, OneOfTwo::B(item()), |v| { if let OneOfTwo::B(a) = v { expect(0, a); 1 } else { unreachable!() } });
	plain_fields_0: derived::<S, CS, PlainFields>(C::own, PlainFields::B { x: 1, y: item(), z: () }, |v| { if let PlainFields::B { y, .. } = v { expect(0, y); 1 } else { unreachable!() } });
	plain_fields_1: derived::<S, OS, PlainFields>(O::own, PlainFields::C(true, 'x', item()), |v| { if let PlainFields::C(_, _, y) = v { expect(0, y); 1 } else { unreachable!() } });
	deeply_generic: derived::<S, PS, _>(P::own, Gen { a: anyv(), t: &9, u: PhantomData, b: item() }, |v| { expect(0, &v.a[0]); expect(1, &v.a[1]); expect(2, &v.t); expect(3, &v.u); expect(4, &v.b); 5 });
	thirty: derived::<S, CS, _>(C::own, anyv::<Thirty>(), |v| { expect(0, &v.a0); expect(1, &v.a1); expect(2, &v.a2); expect(3, &v.a3); expect(4, &v.a4); expect(5, &v.a5); expect(6, &v.a6); expect(7, &v.a7); expect(8, &v.a8); expect(9, &v.a9); expect(10, &v.a10); expect(11, &v.a11); expect(12, &v.a12); expect(13, &v.a13); expect(14, &v.a14); expect(15, &v.a15); expect(16, &v.a16); expect(17, &v.a17); expect(18, &v.a18); expect(19, &v.a19); expect(20, &v.a20); expect(21, &v.a21); expect(22, &v.a22); expect(23, &v.a23); expect(24, &v.a24); expect(25, &v.a25); expect(26, &v.a26); expect(27, &v.a27); expect(28, &v.a28); expect(29, &v.a29); 30 });
}
fn main() {}
