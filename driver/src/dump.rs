use std::{
	collections::{HashMap, VecDeque},
	fmt::Write as _,
	fs,
};

use rustc_public_bridge::IndexedVal;
use rustc_public::{
	abi::{FieldsShape, Primitive, Scalar, TagEncoding, ValueRepr, VariantsShape},
	mir::{
		alloc::{AllocId, GlobalAlloc},
		mono::{Instance, InstanceKind},
		*,
	},
	target::MachineInfo,
	ty::*,
	CrateDef, CrateDefType, CrateItem, ItemKind,
};

/// Functions which are not descended into. All of them are treated by the analysis as
/// diverging or as opaque formatting.
fn cut_off(name: &str) -> bool {
	const PREFIXES: &[&str] = &[
		"core::panicking::",
		"std::panicking::",
		"core::fmt::",
		"std::fmt::",
		"alloc::fmt::",
		"std::rt::",
		"core::option::expect_failed",
		"core::option::unwrap_failed",
		"core::result::unwrap_failed",
		"alloc::alloc::handle_alloc_error",
		"std::alloc::handle_alloc_error",
		"alloc::raw_vec::capacity_overflow",
		"core::slice::index::slice_",
		"core::str::slice_error_fail",
		"std::io::",
		"std::sys::",
		"std::process::",
		"std::thread::",
		"std::env::",
		"std::time::",
	];
	PREFIXES.iter().any(|p| name.starts_with(p))
}

fn esc(s: &str) -> String {
	let mut out = String::with_capacity(s.len() + 2);
	out.push('"');
	for c in s.chars() {
		match c {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			'\t' => out.push_str("\\t"),
			'\r' => out.push_str("\\r"),
			c if (c as u32) < 0x20 => {
				let _ = write!(out, "\\u{:04x}", c as u32);
			}
			c => out.push(c),
		}
	}
	out.push('"');
	out
}

fn join(items: impl IntoIterator<Item = String>) -> String {
	let v: Vec<String> = items.into_iter().collect();
	format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Dumper {
	ty_ids: HashMap<Ty, usize>,
	ty_queue: VecDeque<(usize, Ty)>,
	fn_ids: HashMap<Instance, usize>,
	fn_queue: VecDeque<(usize, Instance)>,
	alloc_ids: HashMap<AllocId, usize>,
	alloc_queue: VecDeque<(usize, AllocId)>,
	files: HashMap<String, usize>,
	file_list: Vec<String>,
	tys: Vec<String>,
	fns: Vec<String>,
	allocs: Vec<String>,
}

pub fn dump(out: &str) {
	let mut d = Dumper::default();
	let mut roots = vec![];
	let mut statics = vec![];
	for item in rustc_public::all_local_items() {
		if item.kind() == ItemKind::Fn {
			let name = item.name().to_string();
			let short = name.rsplit("::").next().unwrap().to_string();
			if !short.starts_with("probe_") && short != "probe" || item.requires_monomorphization() {
				continue;
			}
			let inst = match Instance::try_from(item) {
				Ok(i) => i,
				Err(_) => continue,
			};
			let id = d.func(inst);
			let name = name.strip_suffix("::probe").map(str::to_string).unwrap_or(name);
			roots.push(format!("{}:{}", esc(&name), id));
		}
	}

	// Inventory of whole `ser_raw` crate: every function & every static
	let mut inventory = vec![];
	for krate in rustc_public::find_crates("ser_raw") {
		for f in krate.fn_defs() {
			let sp = f.span();
			inventory.push(format!(
				"[{},{},{}]",
				esc(&f.name().to_string()),
				esc(&sp.get_filename().to_string()),
				sp.get_lines().start_line
			));
		}
		for s in krate.statics() {
			let item: CrateItem = CrateItem::from(s);
			let sp = item.span();
			statics.push(format!(
				"[{},{},{},{}]",
				esc(&item.name().to_string()),
				esc(&format!("{:?}", item.ty().kind())),
				esc(&sp.get_filename().to_string()),
				sp.get_lines().start_line
			));
		}
	}

	loop {
		if let Some((id, inst)) = d.fn_queue.pop_front() {
			let s = d.dump_fn(id, inst);
			d.fns.push(s);
		} else if let Some((id, ty)) = d.ty_queue.pop_front() {
			let s = d.dump_ty(id, ty);
			d.tys.push(s);
		} else if let Some((id, a)) = d.alloc_queue.pop_front() {
			let s = d.dump_alloc(id, a);
			d.allocs.push(s);
		} else {
			break;
		}
	}

	let files = join(d.file_list.iter().map(|f| esc(f)));
	let mut s = String::new();
	let _ = write!(
		s,
		"{{\"roots\":{{{}}},\n\"files\":{},\n\"inventory\":{},\n\"statics\":{},\n\"types\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"allocs\":[\n{}\n]}}\n",
		roots.join(","),
		files,
		join(inventory),
		join(statics),
		d.tys.join(",\n"),
		d.fns.join(",\n"),
		d.allocs.join(",\n"),
	);
	let tmp = format!("{out}.tmp");
	fs::write(&tmp, s).expect("cannot write dump");
	fs::rename(&tmp, out).expect("cannot rename dump");
}

impl Dumper {
	fn ty(&mut self, ty: Ty) -> usize {
		let n = self.ty_ids.len();
		if let Some(&id) = self.ty_ids.get(&ty) {
			return id;
		}
		self.ty_ids.insert(ty, n);
		self.ty_queue.push_back((n, ty));
		n
	}

	fn func(&mut self, inst: Instance) -> usize {
		let n = self.fn_ids.len();
		if let Some(&id) = self.fn_ids.get(&inst) {
			return id;
		}
		self.fn_ids.insert(inst, n);
		self.fn_queue.push_back((n, inst));
		n
	}

	fn alloc(&mut self, a: AllocId) -> usize {
		let n = self.alloc_ids.len();
		if let Some(&id) = self.alloc_ids.get(&a) {
			return id;
		}
		self.alloc_ids.insert(a, n);
		self.alloc_queue.push_back((n, a));
		n
	}

	fn file(&mut self, f: String) -> usize {
		if let Some(&id) = self.files.get(&f) {
			return id;
		}
		let n = self.file_list.len();
		self.files.insert(f.clone(), n);
		self.file_list.push(f);
		n
	}

	fn span(&mut self, span: Span) -> String {
		let f = self.file(span.get_filename().to_string());
		format!("[{},{}]", f, span.get_lines().start_line)
	}

	fn fields(&mut self, tys: Vec<Ty>) -> String {
		join(tys.into_iter().map(|t| self.ty(t).to_string()))
	}

	fn dump_ty(&mut self, id: usize, ty: Ty) -> String {
		let kind = ty.kind();
		let mut extra = String::new();
		let tag = match &kind {
			TyKind::RigidTy(r) => match r {
				RigidTy::Bool => "bool",
				RigidTy::Char => "char",
				RigidTy::Int(t) => {
					let _ = write!(extra, ",\"bits\":{}", t.num_bytes() * 8);
					"int"
				}
				RigidTy::Uint(t) => {
					let _ = write!(extra, ",\"bits\":{}", t.num_bytes() * 8);
					"uint"
				}
				RigidTy::Float(_) => "float",
				RigidTy::Adt(def, args) => {
					let _ = write!(extra, ",\"adt\":{}", esc(&def.name().to_string()));
					if def.is_box() {
						extra.push_str(",\"box\":true");
					}
					let mut vs = vec![];
					for v in def.variants() {
						let mut fs = vec![];
						let mut names = vec![];
						for f in v.fields() {
							let fty = f.ty_with_args(args);
							fs.push(fty);
							names.push(esc(&f.name.to_string()));
						}
						let fs = self.fields(fs);
						let discr = if def.kind() == AdtKind::Enum {
							def.discriminant_for_variant(v.idx()).val.to_string()
						} else {
							"0".to_string()
						};
						vs.push(format!(
							"{{\"n\":{},\"f\":{},\"fn\":{},\"d\":{}}}",
							esc(&v.name().to_string()),
							fs,
							join(names),
							esc(&discr)
						));
					}
					let _ = write!(extra, ",\"variants\":{}", join(vs));
					let mut targs = vec![];
					for a in &args.0 {
						if let GenericArgKind::Type(t) = a {
							targs.push(*t);
						}
					}
					let targs = self.fields(targs);
					let _ = write!(extra, ",\"targs\":{}", targs);
					match def.kind() {
						AdtKind::Enum => "enum",
						AdtKind::Union => "union",
						AdtKind::Struct => "struct",
					}
				}
				RigidTy::Foreign(_) => "foreign",
				RigidTy::Str => "str",
				RigidTy::Array(t, n) => {
					let e = self.ty(*t);
					let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
					let _ = write!(extra, ",\"elem\":{},\"len\":{}", e, n);
					"array"
				}
				RigidTy::Pat(t, _) => {
					let e = self.ty(*t);
					let _ = write!(extra, ",\"elem\":{}", e);
					"pat"
				}
				RigidTy::Slice(t) => {
					let e = self.ty(*t);
					let _ = write!(extra, ",\"elem\":{}", e);
					"slice"
				}
				RigidTy::RawPtr(t, m) => {
					let e = self.ty(*t);
					let _ = write!(extra, ",\"elem\":{},\"mut\":{}", e, *m == Mutability::Mut);
					"rawptr"
				}
				RigidTy::Ref(_, t, m) => {
					let e = self.ty(*t);
					let _ = write!(extra, ",\"elem\":{},\"mut\":{}", e, *m == Mutability::Mut);
					"ref"
				}
				RigidTy::FnDef(def, args) => {
					let inst = Instance::resolve(*def, args);
					if let Ok(i) = inst {
						let f = self.func(i);
						let _ = write!(extra, ",\"fndef\":{}", f);
					}
					"fndef"
				}
				RigidTy::FnPtr(_) => "fnptr",
				RigidTy::Closure(def, args) => {
					// Upvar types are last arg (tuple)
					if let Some(GenericArgKind::Type(t)) = args.0.last() {
						if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
							let fs = self.fields(ts);
							let _ = write!(extra, ",\"fields\":{}", fs);
						}
					}
					let _ = write!(extra, ",\"adt\":{}", esc(&def.name().to_string()));
					"closure"
				}
				RigidTy::Dynamic(..) => "dyn",
				RigidTy::Never => "never",
				RigidTy::Tuple(ts) => {
					let fs = self.fields(ts.clone());
					let _ = write!(extra, ",\"fields\":{}", fs);
					"tuple"
				}
				_ => "other",
			},
			_ => "other",
		};

		let mut lay = "null".to_string();
		if let Ok(l) = ty.layout() {
			let shape = l.shape();
			let off = |v: &Vec<rustc_public::target::MachineSize>| {
				join(v.iter().map(|o| o.bytes().to_string()))
			};
			let fields = match &shape.fields {
				FieldsShape::Primitive => "\"prim\"".to_string(),
				FieldsShape::Union(n) => format!("{{\"union\":{}}}", n),
				FieldsShape::Array { stride, count } => {
					format!("{{\"stride\":{},\"count\":{}}}", stride.bytes(), count)
				}
				FieldsShape::Arbitrary { offsets } => off(offsets),
			};
			let variants = match &shape.variants {
				VariantsShape::Empty => "{\"k\":\"empty\"}".to_string(),
				VariantsShape::Single { index } => {
					format!("{{\"k\":\"single\",\"i\":{}}}", index.to_index())
				}
				VariantsShape::Multiple {
					tag,
					tag_encoding,
					tag_field,
					variants,
				} => {
					let enc = match tag_encoding {
						TagEncoding::Direct => "\"direct\"".to_string(),
						TagEncoding::Niche {
							untagged_variant,
							niche_variants,
							niche_start,
						} => format!(
							"{{\"untagged\":{},\"lo\":{},\"hi\":{},\"start\":\"{}\"}}",
							untagged_variant.to_index(),
							niche_variants.start().to_index(),
							niche_variants.end().to_index(),
							niche_start
						),
					};
					let toff = match &shape.fields {
						FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
						_ => 0,
					};
					format!(
						"{{\"k\":\"multi\",\"tag\":{},\"enc\":{},\"toff\":{},\"vs\":{}}}",
						scalar(tag),
						enc,
						toff,
						join(variants.iter().map(|v| off(&v.offsets)))
					)
				}
			};
			let repr = match &shape.value_repr {
				ValueRepr::Scalar(s) => format!("{{\"s\":{}}}", scalar(s)),
				ValueRepr::ScalarPair { a, b, b_offset } => format!(
					"{{\"a\":{},\"b\":{},\"boff\":{}}}",
					scalar(a),
					scalar(b),
					b_offset.bytes()
				),
				_ => "null".to_string(),
			};
			lay = format!(
				"{{\"size\":{},\"align\":{},\"sized\":{},\"fields\":{},\"variants\":{},\"repr\":{}}}",
				shape.size.bytes(),
				shape.abi_align,
				shape.is_sized(),
				fields,
				variants,
				repr
			);
		}

		let name = format!("{}", ty);
		format!(
			"{{\"id\":{},\"k\":\"{}\",\"name\":{}{},\"layout\":{}}}",
			id,
			tag,
			esc(&name),
			extra,
			lay
		)
	}

	fn allocation(&mut self, a: &Allocation) -> String {
		let mut hex = String::new();
		for b in &a.bytes {
			match b {
				Some(b) => {
					let _ = write!(hex, "{:02x}", b);
				}
				None => hex.push_str("__"),
			}
		}
		let provs: Vec<_> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
		let p = join(provs.into_iter().map(|(o, p)| format!("[{},{}]", o, self.alloc(p))));
		format!(
			"{{\"b\":\"{}\",\"p\":{},\"align\":{},\"mut\":{}}}",
			hex,
			p,
			a.align,
			a.mutability == Mutability::Mut
		)
	}

	fn dump_alloc(&mut self, id: usize, a: AllocId) -> String {
		let g = GlobalAlloc::from(a);
		let body = match &g {
			GlobalAlloc::Function(inst) => format!("\"k\":\"fn\",\"fn\":{}", self.func(*inst)),
			GlobalAlloc::VTable(ty, tr) => {
				let t = self.ty(*ty);
				let name = match tr {
					Some(tr) => format!("{:?}", tr.value.def_id),
					None => String::new(),
				};
				let mem = match g.vtable_allocation() {
					Some(va) => self.alloc(va).to_string(),
					None => "null".into(),
				};
				format!("\"k\":\"vtable\",\"ty\":{},\"trait\":{},\"mem\":{}", t, esc(&name), mem)
			}
			GlobalAlloc::Static(s) => {
				let item: CrateItem = CrateItem::from(*s);
				let tyid = self.ty(item.ty());
				let init = match s.eval_initializer() {
					Ok(a) => self.allocation(&a),
					Err(_) => "null".into(),
				};
				format!(
					"\"k\":\"static\",\"name\":{},\"ty\":{},\"init\":{}",
					esc(&item.name().to_string()),
					tyid,
					init
				)
			}
			GlobalAlloc::Memory(m) => format!("\"k\":\"mem\",\"init\":{}", self.allocation(m)),
			GlobalAlloc::TypeId { ty } => format!("\"k\":\"typeid\",\"ty\":{}", self.ty(*ty)),
		};
		format!("{{\"id\":{},{}}}", id, body)
	}

	fn dump_fn(&mut self, id: usize, inst: Instance) -> String {
		let name = inst.name().to_string();
		let kind = match inst.kind {
			InstanceKind::Item => "item".to_string(),
			InstanceKind::Intrinsic => "intrinsic".to_string(),
			InstanceKind::LlvmIntrinsic => "llvm".to_string(),
			InstanceKind::Virtual { idx } => format!("virtual:{idx}"),
			InstanceKind::Shim => "shim".to_string(),
		};
		let mut s = format!("{{\"id\":{},\"name\":{},\"kind\":\"{}\"", id, esc(&name), kind);
		if let Some(i) = inst.intrinsic_name() {
			let _ = write!(s, ",\"intr\":{}", esc(&i.to_string()));
		}
		// Type args
		let mut targs = vec![];
		if !matches!(inst.kind, InstanceKind::Virtual { .. }) {
			for a in &inst.args().0 {
				match a {
					GenericArgKind::Type(t) => targs.push(self.ty(*t).to_string()),
					GenericArgKind::Const(c) => targs.push(match c.eval_target_usize() {
						Ok(n) => format!("{{\"c\":{}}}", n),
						Err(_) => "null".into(),
					}),
					_ => {}
				}
			}
		}
		let _ = write!(s, ",\"targs\":{}", join(targs));

		let foreign = !matches!(inst.kind, InstanceKind::Shim | InstanceKind::Virtual { .. })
			&& inst.is_foreign_item();
		if foreign {
			s.push_str(",\"foreign\":true}");
			return s;
		}
		if cut_off(&name) || matches!(inst.kind, InstanceKind::Virtual { .. }) {
			s.push_str(",\"cut\":true}");
			return s;
		}
		let Some(body) = inst.body() else {
			s.push_str(",\"nobody\":true}");
			return s;
		};
		let decls: &'static [LocalDecl] = Box::leak(body.locals().to_vec().into_boxed_slice());
		CUR_LOCALS.with(|c| *c.borrow_mut() = decls);
		let locals: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
		let nargs = body.arg_locals().len();
		let lt = join(locals.iter().map(|t| self.ty(*t).to_string()));
		let sp = self.span(body.span);
		let _ = write!(s, ",\"span\":{},\"nargs\":{},\"locals\":{}", sp, nargs, lt);
		if let Some(sa) = body.spread_arg() {
			let _ = write!(s, ",\"spread\":{}", sa);
		}
		let mut blocks = vec![];
		for b in &body.blocks {
			let mut stmts = vec![];
			for st in &b.statements {
				if let Some(x) = self.stmt(st, &locals) {
					stmts.push(x);
				}
			}
			let term = self.term(&b.terminator, &locals);
			blocks.push(format!("[[{}],{}]", stmts.join(","), term));
		}
		let _ = write!(s, ",\"blocks\":[{}]}}", blocks.join(",\n "));
		s
	}

	fn place(&mut self, p: &Place) -> String {
		let proj: Vec<String> = p
			.projection
			.iter()
			.map(|e| match e {
				ProjectionElem::Deref => "[\"*\"]".to_string(),
				ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
				ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
				ProjectionElem::ConstantIndex {
					offset,
					min_length,
					from_end,
				} => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
				ProjectionElem::Subslice { from, to, from_end } => {
					format!("[\"s\",{},{},{}]", from, to, from_end)
				}
				ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
				ProjectionElem::OpaqueCast(t) => format!("[\"o\",{}]", self.ty(*t)),
			})
			.collect();
		format!("[{},[{}]]", p.local, proj.join(","))
	}

	fn constant(&mut self, c: &MirConst) -> String {
		let t = self.ty(c.ty());
		let v = match c.kind() {
			ConstantKind::Allocated(a) => self.allocation(a),
			ConstantKind::ZeroSized => "\"zst\"".to_string(),
			ConstantKind::Ty(tc) => match tc.kind() {
				TyConstKind::Value(_, a) => self.allocation(a),
				TyConstKind::ZSTValue(_) => "\"zst\"".to_string(),
				_ => "\"unknown\"".to_string(),
			},
			_ => "\"unknown\"".to_string(),
		};
		format!("[\"k\",{},{}]", t, v)
	}

	fn operand(&mut self, o: &Operand) -> String {
		match o {
			Operand::Copy(p) => format!("[\"p\",{}]", self.place(p)),
			Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
			Operand::Constant(c) => self.constant(&c.const_),
			Operand::RuntimeChecks(r) => format!("[\"rt\",\"{:?}\"]", r),
		}
	}

	fn stmt(&mut self, st: &Statement, locals: &[LocalTy]) -> Option<String> {
		let line = self.span(st.source_info.span);
		Some(match &st.kind {
			StatementKind::Assign(p, rv) => {
				let p = self.place(p);
				let r = self.rvalue(rv, locals);
				format!("[\"=\",{},{},{}]", p, r, line)
			}
			StatementKind::SetDiscriminant {
				place,
				variant_index,
			} => format!(
				"[\"sd\",{},{},{}]",
				self.place(place),
				variant_index.to_index(),
				line
			),
			StatementKind::StorageLive(l) => format!("[\"live\",{}]", l),
			StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l),
			StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
				format!("[\"assume\",{},{}]", self.operand(o), line)
			}
			StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
				let src = self.operand(&c.src);
				let dst = self.operand(&c.dst);
				let n = self.operand(&c.count);
				format!("[\"cno\",{},{},{},{}]", src, dst, n, line)
			}
			_ => return None,
		})
	}

	fn rvalue(&mut self, rv: &Rvalue, locals: &[LocalTy]) -> String {
		match rv {
			Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
			Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
			Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
			Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
			Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"p\",{}]]", self.place(p)),
			Rvalue::Aggregate(k, ops) => {
				let ops = join(ops.iter().map(|o| self.operand(o)));
				let t = rv.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				let t = t.unwrap_or("null".into());
				let k = match k {
					AggregateKind::Adt(_, v, _, _, f) => format!(
						"[\"adt\",{},{}]",
						v.to_index(),
						f.map(|f| f.to_string()).unwrap_or("null".into())
					),
					AggregateKind::Array(_) => "[\"array\"]".to_string(),
					AggregateKind::Tuple => "[\"tuple\"]".to_string(),
					AggregateKind::Closure(..) => "[\"closure\"]".to_string(),
					AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
					_ => "[\"other\"]".to_string(),
				};
				format!("[\"agg\",{},{},{}]", k, t, ops)
			}
			Rvalue::BinaryOp(op, a, b) => {
				let t = a.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				let a = self.operand(a);
				let b = self.operand(b);
				format!("[\"bin\",\"{:?}\",{},{},{}]", op, a, b, t.unwrap_or("null".into()))
			}
			Rvalue::CheckedBinaryOp(op, a, b) => {
				let t = a.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				let a = self.operand(a);
				let b = self.operand(b);
				format!("[\"cbin\",\"{:?}\",{},{},{}]", op, a, b, t.unwrap_or("null".into()))
			}
			Rvalue::UnaryOp(op, a) => {
				let t = a.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				let a = self.operand(a);
				format!("[\"un\",\"{:?}\",{},{}]", op, a, t.unwrap_or("null".into()))
			}
			Rvalue::Cast(k, o, t) => {
				let from = o.ty(locals_decl(locals)).ok();
				let extra = match k {
					CastKind::PointerCoercion(PointerCoercion::Unsize) => {
						from.and_then(|f| self.unsize_vtable(f, *t)).unwrap_or("null".into())
					}
					CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
						match from.map(|f| f.kind()) {
							Some(TyKind::RigidTy(RigidTy::FnDef(def, args))) => {
								match Instance::resolve_for_fn_ptr(def, &args) {
									Ok(i) => self.func(i).to_string(),
									Err(_) => "null".into(),
								}
							}
							_ => "null".into(),
						}
					}
					CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
						match from.map(|f| f.kind()) {
							Some(TyKind::RigidTy(RigidTy::Closure(def, args))) => {
								match Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
									Ok(i) => self.func(i).to_string(),
									Err(_) => "null".into(),
								}
							}
							_ => "null".into(),
						}
					}
					_ => "null".into(),
				};
				let from = from.map(|t| self.ty(t).to_string()).unwrap_or("null".into());
				let kind = match k {
					CastKind::PointerCoercion(c) => format!("{:?}", c),
					k => format!("{:?}", k),
				};
				let o = self.operand(o);
				let t = self.ty(*t);
				format!("[\"cast\",{},{},{},{},{}]", esc(&kind), o, from, t, extra)
			}
			Rvalue::Discriminant(p) => {
				let t = rv.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				format!("[\"disc\",{},{}]", self.place(p), t.unwrap_or("null".into()))
			}
			Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
			Rvalue::Repeat(o, n) => {
				let t = rv.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				let o = self.operand(o);
				let n = n.eval_target_usize().map(|n| n.to_string()).unwrap_or("null".into());
				format!("[\"rep\",{},{},{}]", o, n, t.unwrap_or("null".into()))
			}
			Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name().to_string())),
		}
	}

	/// `&T -> &dyn Trait`: not modelled beyond noting the concrete type
	fn unsize_vtable(&mut self, from: Ty, _to: Ty) -> Option<String> {
		let inner = from.kind().builtin_deref(true)?.ty;
		Some(self.ty(inner).to_string())
	}

	fn unwind(&self, u: &UnwindAction) -> String {
		match u {
			UnwindAction::Continue => "\"cont\"".into(),
			UnwindAction::Unreachable => "\"unreach\"".into(),
			UnwindAction::Terminate => "\"term\"".into(),
			UnwindAction::Cleanup(b) => b.to_string(),
		}
	}

	fn term(&mut self, t: &Terminator, locals: &[LocalTy]) -> String {
		let line = self.span(t.source_info.span);
		match &t.kind {
			TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
			TerminatorKind::SwitchInt { discr, targets } => {
				let ty = discr.ty(locals_decl(locals)).ok().map(|t| self.ty(t).to_string());
				let d = self.operand(discr);
				let br = join(targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)));
				format!(
					"[\"switch\",{},{},{},{},{}]",
					d,
					br,
					targets.otherwise(),
					ty.unwrap_or("null".into()),
					line
				)
			}
			TerminatorKind::Resume => "[\"resume\"]".into(),
			TerminatorKind::Abort => "[\"abort\"]".into(),
			TerminatorKind::Return => "[\"ret\"]".into(),
			TerminatorKind::Unreachable => format!("[\"unreach\",{}]", line),
			TerminatorKind::Drop {
				place,
				target,
				unwind,
			} => {
				let ty = place.ty(locals_decl(locals)).unwrap();
				let inst = Instance::resolve_drop_in_place(ty);
				let f = if inst.is_empty_shim() {
					"null".to_string()
				} else {
					self.func(inst).to_string()
				};
				let p = self.place(place);
				let u = self.unwind(unwind);
				let tyid = self.ty(ty);
				format!("[\"drop\",{},{},{},{},{},{}]", p, f, target, u, tyid, line)
			}
			TerminatorKind::Call {
				func,
				args,
				destination,
				target,
				unwind,
			} => {
				let fty = func.ty(locals_decl(locals)).unwrap();
				let mut rust_call = false;
				let callee = match fty.kind() {
					TyKind::RigidTy(RigidTy::FnDef(def, gargs)) => {
						rust_call = matches!(def.fn_sig().value.abi, Abi::RustCall);
						match Instance::resolve(def, &gargs) {
							Ok(i) => self.func(i).to_string(),
							Err(_) => format!("[\"unresolved\",{}]", esc(&def.name().to_string())),
						}
					}
					_ => format!("[\"ptr\",{}]", self.operand(func)),
				};
				let args = join(args.iter().map(|a| self.operand(a)));
				let dst = self.place(destination);
				let t = target.map(|t| t.to_string()).unwrap_or("null".into());
				let u = self.unwind(unwind);
				format!(
					"[\"call\",{},{},{},{},{},{},{}]",
					callee, args, dst, t, u, rust_call, line
				)
			}
			TerminatorKind::Assert {
				cond,
				expected,
				msg,
				target,
				unwind,
			} => {
				let m = msg.description().unwrap_or("assert");
				let c = self.operand(cond);
				let u = self.unwind(unwind);
				format!(
					"[\"assert\",{},{},{},{},{},{}]",
					c,
					expected,
					esc(m),
					target,
					u,
					line
				)
			}
			TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{}]", line),
		}
	}
}

type LocalTy = Ty;

/// `rustc_public` wants `LocalDecl`s to compute types. Types are all it uses.
fn locals_decl(_: &[LocalTy]) -> &'static [LocalDecl] {
	CUR_LOCALS.with(|c| *c.borrow())
}

thread_local! {
	static CUR_LOCALS: std::cell::RefCell<&'static [LocalDecl]> = const { std::cell::RefCell::new(&[]) };
}

fn scalar(s: &Scalar) -> String {
	let (prim, init, range) = match s {
		Scalar::Initialized { value, valid_range } => {
			(value, true, Some((valid_range.start, valid_range.end)))
		}
		Scalar::Union { value } => (value, false, None),
	};
	let size = prim.size(&MachineInfo::target()).bytes();
	let k = match prim {
		Primitive::Int { signed, .. } => {
			if *signed {
				"i"
			} else {
				"u"
			}
		}
		Primitive::Float { .. } => "f",
		Primitive::Pointer(_) => "p",
	};
	let r = match range {
		Some((a, b)) => format!("[\"{}\",\"{}\"]", a, b),
		None => "null".into(),
	};
	format!("[{},\"{}\",{},{}]", size, k, init, r)
}
