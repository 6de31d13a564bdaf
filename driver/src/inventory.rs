//! Inventory of one crate: what its code can touch other than its arguments.
//!
//! Lists every static, foreign item, thread-local and inline assembly, every function which is
//! called or otherwise referred to by any body (resolved, by path), and every manual
//! implementation of `Send` or `Sync` with the types it covers.
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::{Body, ConstOperand, InlineAsmOperand, Location, Rvalue, Terminator, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::{sym, ExpnKind, MacroKind, Span};
use std::fmt::Write;

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => {
				write!(o, "\\u{:04x}", c as u32).unwrap();
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

struct Walk<'tcx> {
	tcx: TyCtxt<'tcx>,
	refs: Vec<String>,
	owner: String,
	derived: bool,
}

fn from_derive(span: Span) -> bool {
	let mut s = span;
	while s.from_expansion() {
		let d = s.ctxt().outer_expn_data();
		if let ExpnKind::Macro(MacroKind::Derive, _) = d.kind {
			return true;
		}
		s = d.call_site;
	}
	false
}

impl<'tcx> Walk<'tcx> {
	fn put(&mut self, kind: &str, what: &str, span: Span) {
		let loc = self.tcx.sess.source_map().span_to_diagnostic_string(span);
		let derived = self.derived || from_derive(span);
		self.refs.push(format!(
			"{{\"kind\":{},\"what\":{},\"in\":{},\"at\":{},\"derived\":{}}}",
			esc(kind),
			esc(what),
			esc(&self.owner),
			esc(&loc),
			derived
		));
	}

	fn fn_ty(&mut self, ty: Ty<'tcx>, span: Span) {
		if let ty::FnDef(def, args) = ty.kind() {
			let mut path = self.tcx.def_path_str(*def);
			let full = with_crate(self.tcx, *def);
			if full != path {
				path = full;
			}
			// Methods of trait: which type they are called on
			let on = self.tcx.trait_of_assoc(*def).and_then(|_| args.skip_binder().types().next()).map(|t| format!("{:?}", t)).unwrap_or_default();
			let foreign = self.tcx.is_foreign_item(*def) && !self.tcx.crate_name(def.krate).as_str().starts_with("core");
			let what = if on.is_empty() { path } else { format!("{} on {}", path, on) };
			self.put(if foreign { "foreign call" } else { "fn" }, &what, span);
		}
	}
}

fn with_crate(tcx: TyCtxt<'_>, def: DefId) -> String {
	format!("{}{}", tcx.crate_name(def.krate), tcx.def_path(def).to_string_no_crate_verbose())
}

impl<'tcx> Visitor<'tcx> for Walk<'tcx> {
	fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, l: Location) {
		self.fn_ty(c.const_.ty(), c.span);
		if let Some(def) = c.check_static_ptr(self.tcx) {
			let p = with_crate(self.tcx, def);
			self.put("static", &p, c.span);
		}
		self.super_const_operand(c, l);
	}

	fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
		if let Rvalue::ThreadLocalRef(def) = r {
			let p = with_crate(self.tcx, *def);
			self.put("thread local", &p, self.tcx.def_span(*def));
		}
		self.super_rvalue(r, l);
	}

	fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
		if let TerminatorKind::InlineAsm { operands, .. } = &t.kind {
			let _: &Box<[InlineAsmOperand<'tcx>]> = operands;
			self.put("inline assembly", "asm!", t.source_info.span);
		}
		self.super_terminator(t, l);
	}
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, trait_def: DefId, ty: Ty<'tcx>) -> bool {
	use rustc_infer::infer::TyCtxtInferExt;
	use rustc_trait_selection::infer::InferCtxtExt;
	let (infcx, param_env) = tcx.infer_ctxt().build_with_typing_env(env);
	infcx.type_implements_trait(trait_def, [ty], param_env).must_apply_modulo_regions()
}

/// Is everything which is reachable through raw pointers which `ty` owns `Send` / `Sync`?
/// Raw pointers aren't, only as a reminder. Private types which wrap them inherit that.
fn covered<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, trait_def: DefId, ty: Ty<'tcx>, depth: usize) -> bool {
	if implements(tcx, env, trait_def, ty) {
		return true;
	}
	if depth == 0 {
		return false;
	}
	match ty.kind() {
		ty::RawPtr(t, _) => implements(tcx, env, trait_def, *t),
		ty::Pat(t, _) => covered(tcx, env, trait_def, *t, depth),
		ty::Array(t, _) => covered(tcx, env, trait_def, *t, depth - 1),
		ty::Tuple(ts) => ts.iter().all(|t| covered(tcx, env, trait_def, t, depth - 1)),
		ty::Adt(a, args) => {
			let name = with_crate(tcx, a.did());
			if a.is_phantom_data() {
				return covered(tcx, env, trait_def, args.type_at(0), depth - 1);
			}
			let open = a.did().is_local()
				|| ["NonNull", "Option", "ManuallyDrop", "MaybeUninit", "MaybeDangling"]
					.iter()
					.any(|n| name.rsplit("::").next() == Some(*n));
			open && a.all_fields().all(|f| covered(tcx, env, trait_def, f.ty(tcx, args).skip_norm_wip(), depth - 1))
		}
		_ => false,
	}
}

pub fn inventory(tcx: TyCtxt<'_>, out: &str) {
	let mut w = Walk { tcx, refs: vec![], owner: String::new(), derived: false };
	let mut statics = vec![];
	let mut foreign = vec![];
	let mut autos = vec![];
	let mut bodies = 0;
	for id in tcx.hir_crate_items(()).definitions() {
		let def = id.to_def_id();
		let kind = tcx.def_kind(def);
		let at = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(def));
		if let DefKind::Static { mutability, .. } = kind {
			let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
			let env = TypingEnv::post_analysis(tcx, def);
			let freeze = ty.is_freeze(tcx, env);
			statics.push(format!(
				"{{\"name\":{},\"at\":{},\"mut\":{},\"freeze\":{},\"tls\":{},\"foreign\":{}}}",
				esc(&with_crate(tcx, def)),
				esc(&at),
				mutability.is_mut(),
				freeze,
				tcx.is_thread_local_static(def),
				tcx.is_foreign_item(def)
			));
		}
		if tcx.is_foreign_item(def) {
			foreign.push(format!("{{\"name\":{},\"at\":{}}}", esc(&with_crate(tcx, def)), esc(&at)));
		}
		if kind == (DefKind::Impl { of_trait: true }) {
			let tr = tcx.impl_trait_ref(def).instantiate_identity().skip_norm_wip();
			let is_send = tcx.is_diagnostic_item(sym::Send, tr.def_id);
			let is_sync = tcx.lang_items().sync_trait() == Some(tr.def_id);
			if (is_send || is_sync) && tcx.impl_polarity(def) == ty::ImplPolarity::Positive {
				let env = TypingEnv::post_analysis(tcx, def);
				let mut fields = vec![];
				if let ty::Adt(adt, args) = tr.self_ty().kind() {
					for f in adt.all_fields() {
						let ty = f.ty(tcx, args).skip_norm_wip();
						let ok = covered(tcx, env, tr.def_id, ty, 8);
						fields.push(format!("{{\"name\":{},\"ty\":{},\"ok\":{}}}", esc(f.name.as_str()), esc(&ty.to_string()), ok));
					}
				}
				autos.push(format!(
					"{{\"trait\":{},\"for\":{},\"at\":{},\"fields\":[{}]}}",
					esc(if is_send { "Send" } else { "Sync" }),
					esc(&tr.self_ty().to_string()),
					esc(&at),
					fields.join(",")
				));
			}
		}
	}
	for id in tcx.mir_keys(()) {
		let def = id.to_def_id();
		let kind = tcx.def_kind(def);
		let body: &Body<'_> = match kind {
			DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(def),
			DefKind::Ctor(..) => continue,
			_ => tcx.mir_for_ctfe(def),
		};
		bodies += 1;
		w.owner = tcx.def_path_str(def);
		w.derived = from_derive(body.span);
		w.visit_body(body);
		if kind != DefKind::Closure && !tcx.is_const_fn(def) {
			// Promoted constants are part of body
		}
		for p in tcx.promoted_mir(def).iter() {
			w.visit_body(p);
		}
	}
	let s = format!(
		"{{\"crate\":{},\"bodies\":{},\"statics\":[{}],\"foreign\":[{}],\"autos\":[{}],\"refs\":[\n{}\n]}}",
		esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
		bodies,
		statics.join(","),
		foreign.join(","),
		autos.join(","),
		w.refs.join(",\n")
	);
	std::fs::write(out, s).expect("cannot write inventory");
}
