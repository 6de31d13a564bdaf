From 8b3f33062f42f449bbfa11c46b11c0c1d3edbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 1/6] fix: align position before set_pos and check size
 overflow in push_empty_slice

---
 ser_raw/src/storage/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ser_raw/src/storage/mod.rs b/ser_raw/src/storage/mod.rs
index 07e9383..0d9d8f0 100644
--- a/ser_raw/src/storage/mod.rs
+++ b/ser_raw/src/storage/mod.rs
@@ -353,12 +353,19 @@ pub trait Storage: Sized {
 	fn push_empty_slice<T>(&mut self, len: usize) -> usize {
 		self.align_for::<T>();
 
-		let size = mem::size_of::<T>() * len;
+		// Unlike in `push_slice`, `len` is chosen freely by caller, so size can overflow
+		let size = mem::size_of::<T>()
+			.checked_mul(len)
+			.expect("Cannot push empty slice larger than `usize::MAX` bytes");
 		self.reserve(size);
 		let pos = self.pos();
-		unsafe { self.set_pos(self.pos() + size) };
 
-		self.align_after::<T>();
+		// `pos + size <= capacity` because of the `reserve()` call above, and `capacity`
+		// is a multiple of `VALUE_ALIGNMENT`, so rounding up cannot exceed `capacity`.
+		// New position must be aligned *before* calling `set_pos`, as `set_pos` requires
+		// a position which is a multiple of `VALUE_ALIGNMENT`.
+		unsafe { self.set_pos(align_up_to(pos + size, Self::VALUE_ALIGNMENT)) };
+
 		pos
 	}
 
-- 
2.43.0


From 90e03f43759f3f8163975ce15f1e42929e1e2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 2/6] fix: align pointer of unallocated AlignedVec to
 STORAGE_ALIGNMENT

---
 ser_raw/src/storage/aligned_vec.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ser_raw/src/storage/aligned_vec.rs b/ser_raw/src/storage/aligned_vec.rs
index b670ed2..4860796 100644
--- a/ser_raw/src/storage/aligned_vec.rs
+++ b/ser_raw/src/storage/aligned_vec.rs
@@ -104,7 +104,7 @@ impl<
 		let _ = Self::ASSERT_ALIGNMENTS_VALID;
 
 		Self {
-			ptr: NonNull::dangling(),
+			ptr: Self::dangling(),
 			capacity: 0,
 			pos: 0,
 		}
@@ -243,7 +243,7 @@ impl<
 			self.ptr = unsafe {
 				if new_cap == 0 {
 					self.dealloc();
-					NonNull::dangling()
+					Self::dangling()
 				} else {
 					self.realloc(new_cap)
 				}
@@ -305,6 +305,16 @@ impl<
 		self.capacity = new_cap;
 	}
 
+	/// Get pointer for an `AlignedVec` which has no allocation.
+	///
+	/// `NonNull::<u8>::dangling()` is not suitable, because it's only aligned to 1,
+	/// and pointer to storage must always be aligned to `STORAGE_ALIGNMENT`.
+	#[inline]
+	fn dangling() -> NonNull<u8> {
+		// `STORAGE_ALIGNMENT` is non-zero (checked by `ASSERT_ALIGNMENTS_VALID`)
+		unsafe { NonNull::new_unchecked(STORAGE_ALIGNMENT as *mut u8) }
+	}
+
 	/// Allocate backing memory.
 	///
 	/// # Safety
-- 
2.43.0


From e89e46058468851420a0ad48f0605372736dea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 3/6] fix: support raw identifier field names in
 derive(Serialize) on enums

---
 ser_raw_derive/src/enums.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index b0b6930..a03e83e 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -85,9 +85,12 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 
 	// Aliases are required in case of a field called `serializer`.
 	// `Self::Foo {x: val_x} =>` instead of just `Self::Foo {x} =>`.
+	// Aliases are numbered rather than derived from field name, as field name may be
+	// a raw identifier e.g. `r#type`, which cannot be prefixed.
 	let field_aliases = field_idents
 		.iter()
-		.map(|ident| Ident::new(&("val_".to_string() + &ident.to_string()), ident.span()))
+		.enumerate()
+		.map(|(index, ident)| Ident::new(&("val_".to_string() + &index.to_string()), ident.span()))
 		.collect::<Vec<_>>();
 
 	let var_mappings = std::iter::zip(&field_idents, &field_aliases)
-- 
2.43.0


From 3a18810ae8de315bde2e937f7c2f01d8d1c47b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 4/6] fix: honour ser_with attributes on enum fields and with
 generic proxy paths

---
 ser_raw_derive/src/enums.rs   | 29 +++++++++++++++++------------
 ser_raw_derive/src/structs.rs | 33 +++++++++++----------------------
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/ser_raw_derive/src/enums.rs b/ser_raw_derive/src/enums.rs
index a03e83e..f4f8f56 100644
--- a/ser_raw_derive/src/enums.rs
+++ b/ser_raw_derive/src/enums.rs
@@ -1,8 +1,8 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
-use syn::{DataEnum, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
+use syn::{DataEnum, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident};
 
-// TODO: Handle `ser_with` attribute
+use super::structs::get_with;
 
 pub fn derive_enum(
 	data: DataEnum,
@@ -63,7 +63,7 @@ fn get_match_for_unnamed_fields(ident: Ident, fields: FieldsUnnamed) -> Option<T
 		.into_iter()
 		.map(|index| Ident::new(&("val_".to_string() + &index.to_string()), ident.span()))
 		.collect::<Vec<_>>();
-	let stmts = get_field_stmts(&field_idents);
+	let stmts = get_field_stmts(&field_idents, fields.iter());
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident(#(#field_idents),*) => {
@@ -79,8 +79,8 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	}
 
 	let field_idents = fields
-		.into_iter()
-		.map(|field| field.ident.unwrap())
+		.iter()
+		.map(|field| field.ident.clone().unwrap())
 		.collect::<Vec<_>>();
 
 	// Aliases are required in case of a field called `serializer`.
@@ -97,7 +97,7 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 		.map(|(ident, alias)| quote! { #ident: #alias })
 		.collect::<Vec<_>>();
 
-	let stmts = get_field_stmts(&field_aliases);
+	let stmts = get_field_stmts(&field_aliases, fields.iter());
 
 	Some(quote_spanned! {ident.span()=>
 		Self::#ident{#(#var_mappings),*} => {
@@ -106,13 +106,18 @@ fn get_match_for_named_fields(ident: Ident, fields: FieldsNamed) -> Option<Token
 	})
 }
 
-fn get_field_stmts(idents: &Vec<Ident>) -> Vec<TokenStream> {
-	idents
-		.iter()
-		.map(|ident| {
-			quote! {
+fn get_field_stmts<'f>(
+	idents: &Vec<Ident>,
+	fields: impl Iterator<Item = &'f Field>,
+) -> Vec<TokenStream> {
+	std::iter::zip(idents, fields)
+		.map(|(ident, field)| match get_with(field) {
+			Some(with) => quote! {
+				<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(#ident, serializer);
+			},
+			None => quote! {
 				::ser_raw::Serialize::<__S>::serialize_data(#ident, serializer);
-			}
+			},
 		})
 		.collect::<Vec<_>>()
 }
diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index b13b276..5fa586c 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
-	Meta, MetaList, NestedMeta, Path,
+	Path,
 };
 
 pub fn derive_struct(
@@ -72,32 +72,21 @@ fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
 	}
 }
 
-fn get_with(field: &Field) -> Option<Path> {
+pub fn get_with(field: &Field) -> Option<Path> {
 	let attrs = field
 		.attrs
 		.iter()
-		.map(|attr| attr.parse_meta())
-		.filter_map(Result::ok)
-		.filter(|attr| attr.path().is_ident("ser_with"))
+		.filter(|attr| attr.path.is_ident("ser_with"))
 		.collect::<Vec<_>>();
 
-	if attrs.len() == 0 {
-		return None;
-	}
-
-	if attrs.len() != 1 {
-		panic!("Cannot have more than 1 `#[ser_with]` attribute on a field");
-	}
-
-	let attr = attrs.into_iter().nth(0).unwrap();
-	if let Meta::List(MetaList { nested, .. }) = attr {
-		let parts: Vec<NestedMeta> = nested.into_iter().collect();
-		if parts.len() == 1 {
-			let first = parts.into_iter().nth(0).unwrap();
-			if let NestedMeta::Meta(Meta::Path(with)) = first {
-				return Some(with);
+	match attrs.as_slice() {
+		[] => None,
+		[attr] => match attr.parse_args::<Path>() {
+			Ok(with) => Some(with),
+			Err(_) => {
+				panic!("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`")
 			}
-		}
+		},
+		_ => panic!("Cannot have more than 1 `#[ser_with]` attribute on a field"),
 	}
-	panic!("`#[ser_with]` needs a path e.g. `#[ser_with(ForeignTypeProxy)]`");
 }
-- 
2.43.0


From 0629295498da01789aebfe791385bbb0c1055a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 5/6] fix: derive(Serialize) on structs whose fields come from
 a macro_rules macro

---
 ser_raw_derive/src/structs.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ser_raw_derive/src/structs.rs b/ser_raw_derive/src/structs.rs
index 5fa586c..6ec2c41 100644
--- a/ser_raw_derive/src/structs.rs
+++ b/ser_raw_derive/src/structs.rs
@@ -1,4 +1,4 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned};
 use syn::{
 	spanned::Spanned, DataStruct, Field, Fields, FieldsNamed, FieldsUnnamed, Generics, Ident, Index,
@@ -54,16 +54,19 @@ fn get_unnamed_field_stmts(fields: FieldsUnnamed) -> Vec<TokenStream> {
 }
 
 fn get_field_stmt(field_name: TokenStream, field: &Field) -> TokenStream {
+	// Errors are reported on the field, but `self` and `serializer` must not take on the field's
+	// hygiene, which differs where field comes from a `macro_rules!` macro
+	let span = field.span().resolved_at(Span::call_site());
 	match get_with(field) {
 		Some(with) => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				<#with as ::ser_raw::SerializeWith::<_, __S>>::serialize_data_with(
 					&self.#field_name, serializer
 				);
 			}
 		}
 		None => {
-			quote_spanned! {field.span()=>
+			quote_spanned! {span=>
 				::ser_raw::Serialize::<__S>::serialize_data(
 					&self.#field_name, serializer
 				);
-- 
2.43.0


From af90b0fca3134d1b682e3f2e3c7b38cd5516a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:34 +0000
Subject: [PATCH 6/6] fix: derive(Serializer) on types with type parameters
 named T, P or W

Methods in the generated impls had type parameters `T`, `P` and `W`, so a
serializer whose own type parameter has one of those names did not compile
(E0403). Use `__T`, `__P` and `__W`, as `derive(Serialize)` does with `__S`.
---
 .../src/ser_types/complete.rs                      | 14 +++++++-------
 .../src/ser_types/pos_tracking.rs                  | 10 +++++-----
 .../src/ser_types/ptr_offset.rs                    | 10 +++++-----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/ser_raw_derive_serializer/src/ser_types/complete.rs b/ser_raw_derive_serializer/src/ser_types/complete.rs
index 7c930b5..357a280 100644
--- a/ser_raw_derive_serializer/src/ser_types/complete.rs
+++ b/ser_raw_derive_serializer/src/ser_types/complete.rs
@@ -17,36 +17,36 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
 
 		#[inline]
-		unsafe fn overwrite<T>(&mut self, addr: Self::Addr, value: &T) {
+		unsafe fn overwrite<__T>(&mut self, addr: Self::Addr, value: &__T) {
 			// Delegate to `Writable` trait's implementation
 			ser_traits::Writable::do_overwrite(self, addr, value);
 		}
 
 		#[inline]
-		fn overwrite_with<W: FnOnce(&mut Self)>(&mut self, write: W) {
+		fn overwrite_with<__W: FnOnce(&mut Self)>(&mut self, write: __W) {
 			// Delegate to `Complete` trait's implementation
 			ser_traits::Complete::do_overwrite_with(self, write);
 		}
diff --git a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
index 920e39d..82393bc 100644
--- a/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
+++ b/ser_raw_derive_serializer/src/ser_types/pos_tracking.rs
@@ -19,21 +19,21 @@ fn get_methods() -> TokenStream {
 		// Delegate all methods to `PosTracking` trait's implementation
 
 		#[inline]
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			ser_traits::PosTracking::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			ser_traits::PosTracking::do_push_and_process_slice(self, slice, ptr_addr, process)
 		}
diff --git a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
index 9847dca..55cc0ed 100644
--- a/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
+++ b/ser_raw_derive_serializer/src/ser_types/ptr_offset.rs
@@ -16,23 +16,23 @@ fn get_methods() -> TokenStream {
 		// Pointer-writing serializers need a functional `Addr`
 		type Addr = _ser_raw::pos::TrackingAddr;
 
-		fn serialize_value<T: _ser_raw::Serialize<Self>>(&mut self, value: &T) -> usize {
+		fn serialize_value<__T: _ser_raw::Serialize<Self>>(&mut self, value: &__T) -> usize {
 			// Delegate to `PosTracking` trait's implementation
 			ser_traits::PosTracking::do_serialize_value(self, value)
 		}
 
 		#[inline]
-		fn push_slice<T>(&mut self, slice: &[T], ptr_addr: Self::Addr) -> usize {
+		fn push_slice<__T>(&mut self, slice: &[__T], ptr_addr: Self::Addr) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_slice(self, slice, ptr_addr)
 		}
 
 		#[inline]
-		fn push_and_process_slice<T, P: FnOnce(&mut Self)>(
+		fn push_and_process_slice<__T, __P: FnOnce(&mut Self)>(
 			&mut self,
-			slice: &[T],
+			slice: &[__T],
 			ptr_addr: Self::Addr,
-			process: P,
+			process: __P,
 		) -> usize {
 			// Delegate to `PtrWriting` trait's implementation
 			ser_traits::PtrWriting::do_push_and_process_slice(self, slice, ptr_addr, process)
-- 
2.43.0

