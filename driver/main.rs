//! MIR extraction driver.
//!
//! Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. For the crates named in
//! MIRDUMP_CRATES it writes MIRDUMP_OUT/<crate>.json: the type-checked, name-resolved MIR of every
//! function, closure and async body of the crate (before the coroutine transform, so that an await
//! is still a loop around a poll), instantiated per calling context, with every callee resolved.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_middle::mir;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); },
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn arr(items: impl IntoIterator<Item = String>) -> String {
	let v: Vec<String> = items.into_iter().collect();
	format!("[{}]", v.join(","))
}

#[derive(Clone, Copy)]
struct Job<'tcx> {
	id: usize,
	root: LocalDefId,
	instance: Instance<'tcx>,
	promoted: Option<mir::Promoted>,
	depth: usize,
}

struct Dumper<'tcx> {
	tcx: TyCtxt<'tcx>,
	bodies: HashMap<LocalDefId, (mir::Body<'tcx>, IndexVec<mir::Promoted, mir::Body<'tcx>>)>,
	ty_ids: HashMap<Ty<'tcx>, usize>,
	ty_json: Vec<String>,
	adt_seen: HashSet<DefId>,
	adt_json: Vec<String>,
	fn_ids: HashMap<String, usize>,
	fn_json: Vec<String>,
	queue: VecDeque<Job<'tcx>>,
	env: TypingEnv<'tcx>,
	root: LocalDefId,
	depth: usize,
}

impl<'tcx> Dumper<'tcx> {
	fn path(&self, def: DefId) -> String {
		ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(def)))
	}

	fn line(&self, span: Span) -> (String, usize) {
		let sp = span.source_callsite();
		let pos = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
		(format!("{}", pos.file.name.prefer_local_unconditionally()), pos.line)
	}

	fn ty(&mut self, t: Ty<'tcx>) -> usize {
		if let Some(&i) = self.ty_ids.get(&t) {
			return i;
		}
		let id = self.ty_json.len();
		self.ty_ids.insert(t, id);
		self.ty_json.push(String::new());
		let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{t}")));
		let body = match *t.kind() {
			ty::Bool => "\"k\":\"bool\"".to_string(),
			ty::Char => "\"k\":\"char\"".to_string(),
			ty::Int(_) | ty::Uint(_) => "\"k\":\"int\"".to_string(),
			ty::Float(_) => "\"k\":\"float\"".to_string(),
			ty::Str => "\"k\":\"str\"".to_string(),
			ty::Never => "\"k\":\"never\"".to_string(),
			ty::Adt(def, args) => {
				self.adt(def.did());
				let mut targs = Vec::new();
				for a in args.types() {
					targs.push(self.ty(a).to_string());
				}
				// instantiated field types of local adts and of small std enums.
				let mut fields = String::new();
				let p = self.path(def.did());
				let small = matches!(p.as_str(), "core::option::Option" | "core::result::Result" | "core::task::poll::Poll" | "core::ops::control_flow::ControlFlow");
				if def.did().is_local() || small || def.did().krate.as_usize() != 0 && p.starts_with("fizyr_rpc") {
					let mut vs = Vec::new();
					for v in def.variants() {
						let mut fs = Vec::new();
						for f in &v.fields {
							let ft = self.tcx.try_normalize_erasing_regions(self.env, f.ty(self.tcx, args));
							match ft {
								Ok(ft) => fs.push(self.ty(ft).to_string()),
								Err(_) => fs.push("-1".to_string()),
							}
						}
						vs.push(arr(fs));
					}
					fields = format!(",\"vf\":{}", arr(vs));
				}
				let mut drop_fn = String::new();
				if let Some(d) = def.destructor(self.tcx) {
					if d.did.is_local() {
						let inst = Instance::new_raw(d.did, args);
						if let Some(i) = self.enqueue(inst, None) {
							drop_fn = format!(",\"drop\":{i}");
						}
					} else {
						drop_fn = ",\"drop\":-1".to_string();
					}
				}
				format!("\"k\":\"adt\",\"adt\":{},\"args\":{}{}{}", js(&p), arr(targs), fields, drop_fn)
			},
			ty::Ref(_, inner, m) => {
				let i = self.ty(inner);
				format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), i)
			},
			ty::RawPtr(inner, m) => {
				let i = self.ty(inner);
				format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), i)
			},
			ty::Tuple(ts) => {
				let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
				format!("\"k\":\"tuple\",\"ts\":{}", arr(v))
			},
			ty::Slice(inner) => {
				let i = self.ty(inner);
				format!("\"k\":\"slice\",\"t\":{i}")
			},
			ty::Array(inner, len) => {
				let i = self.ty(inner);
				let n = len.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
				format!("\"k\":\"array\",\"t\":{i},\"len\":{n}")
			},
			ty::FnDef(def, _) => format!("\"k\":\"fndef\",\"path\":{}", js(&self.path(def))),
			ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
			ty::Closure(def, args) => {
				let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
				let f = self.enqueue(Instance::new_raw(def, args), None);
				format!("\"k\":\"closure\",\"fn\":{},\"up\":{}", f.map(|x| x.to_string()).unwrap_or("null".into()), arr(up))
			},
			ty::Coroutine(def, args) => {
				let up: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
				let f = self.enqueue(Instance::new_raw(def, args), None);
				format!("\"k\":\"coroutine\",\"fn\":{},\"up\":{}", f.map(|x| x.to_string()).unwrap_or("null".into()), arr(up))
			},
			ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
			ty::Param(_) => "\"k\":\"param\"".to_string(),
			ty::Alias(..) => "\"k\":\"alias\"".to_string(),
			_ => "\"k\":\"other\"".to_string(),
		};
		self.ty_json[id] = format!("{{{},\"s\":{}}}", body, js(&s));
		id
	}

	fn adt(&mut self, did: DefId) {
		if !self.adt_seen.insert(did) {
			return;
		}
		let def = self.tcx.adt_def(did);
		let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
		let mut vs = Vec::new();
		if def.is_enum() || def.is_struct() {
			for (idx, v) in def.variants().iter_enumerated() {
				let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, idx).to_string() } else { "0".into() };
				vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), discr,
					arr(v.fields.iter().map(|f| js(f.name.as_str())))));
			}
		}
		let p = self.path(did);
		self.adt_json.push(format!("{{\"path\":{},\"kind\":\"{}\",\"local\":{},\"variants\":{}}}", js(&p), kind, did.is_local(), arr(vs)));
	}

	/// May the body of this external function be included?
	fn external_ok(&self, def: DefId) -> bool {
		let krate = self.tcx.crate_name(def.krate);
		let krate = krate.as_str();
		if !matches!(krate, "core" | "alloc" | "std") {
			return false;
		}
		let p = self.tcx.def_path(def).to_string_no_crate_verbose();
		["::option", "::result", "::ops::control_flow", "::ops::try_trait", "::task", "::convert", "::cmp", "::pin", "::iter", "::bool", "::future", "::mem", "::clone", "::ops::function", "::ops::range", "::num", "::borrow"]
			.iter()
			.any(|x| p.starts_with(x))
	}

	fn enqueue(&mut self, instance: Instance<'tcx>, promoted: Option<mir::Promoted>) -> Option<usize> {
		let InstanceKind::Item(def) = instance.def else { return None };
		let mut depth = 0;
		if let Some(l) = def.as_local() {
			if !self.bodies.contains_key(&l) {
				return None;
			}
		} else {
			if !self.external_ok(def) || self.depth >= 6 || !self.tcx.is_mir_available(def) {
				return None;
			}
			depth = self.depth + 1;
		}
		let concrete = !instance.args.has_param() && !instance.args.has_aliases();
		let args = ty::print::with_no_trimmed_paths!(format!("{:?}", instance.args));
		let key = format!("{}|{:?}|{}|{:?}", if concrete { "-".to_string() } else { format!("{:?}", self.root) }, def, args, promoted);
		if let Some(&i) = self.fn_ids.get(&key) {
			return Some(i);
		}
		let id = self.fn_json.len();
		self.fn_ids.insert(key, id);
		self.fn_json.push("null".into());
		self.queue.push_back(Job { id, root: self.root, instance, promoted, depth });
		Some(id)
	}

	fn callee(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
		let tcx = self.tcx;
		let mut out = format!("{{\"path\":{}", js(&self.path(def)));
		let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
		let _ = write!(out, ",\"args\":{}", arr(targs));
		if let Some(tr) = tcx.trait_of_assoc(def) {
			let _ = write!(out, ",\"trait\":{},\"self\":{}", js(&self.path(tr)), self.ty(args.type_at(0)));
		} else if let Some(imp) = tcx.impl_of_assoc(def) {
			if let Some(trd) = tcx.impl_opt_trait_ref(imp) {
				let tr = trd.instantiate_identity().skip_normalization().def_id;
				let _ = write!(out, ",\"trait\":{}", js(&self.path(tr)));
			}
		}
		let _ = write!(out, ",\"local\":{}", def.is_local());
		if let DefKind::Ctor(..) = tcx.def_kind(def) {
			// Tuple constructors are plain aggregates.
			let parent = tcx.parent(def);
			let (adt, variant) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
				let adt = tcx.parent(parent);
				(adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
			} else {
				(parent, 0)
			};
			self.adt(adt);
			let _ = write!(out, ",\"ctor\":[{},{}]", js(&self.path(adt)), variant);
		} else {
			match Instance::try_resolve(tcx, self.env, def, args) {
				Ok(Some(inst)) => {
					let rdef = inst.def_id();
					let kind = match inst.def {
						InstanceKind::Item(_) => "item",
						InstanceKind::Intrinsic(_) => "intrinsic",
						InstanceKind::Virtual(..) => "virtual",
						_ => "shim",
					};
					let _ = write!(out, ",\"res\":{},\"rk\":\"{}\"", js(&self.path(rdef)), kind);
					if kind == "item" {
						if let Some(i) = self.enqueue(inst, None) {
							let _ = write!(out, ",\"fn\":{i}");
						}
					}
				},
				_ => {},
			}
		}
		out.push('}');
		out
	}

	fn const_(&mut self, c: &mir::ConstOperand<'tcx>, owner: Option<Instance<'tcx>>) -> String {
		let tcx = self.tcx;
		let t = c.const_.ty();
		let tid = self.ty(t);
		if let ty::FnDef(def, args) = *t.kind() {
			let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
			let ce = self.callee(def, args);
			return format!("{{\"c\":\"fn\",\"t\":{tid},\"callee\":{ce}}}");
		}
		if let mir::Const::Unevaluated(u, _) = c.const_ {
			if let Some(p) = u.promoted {
				let _ = owner;
				let inst = Instance::new_raw(u.def, u.args);
				if let Some(i) = self.enqueue(inst, Some(p)) {
					return format!("{{\"c\":\"promoted\",\"t\":{tid},\"fn\":{i}}}");
				}
			} else if u.def.is_local() && !t.is_integral() && !t.is_bool() {
				let inst = Instance::new_raw(u.def, u.args);
				if let Some(i) = self.enqueue(inst, None) {
					return format!("{{\"c\":\"promoted\",\"t\":{tid},\"fn\":{i}}}");
				}
			}
		}
		if t.is_integral() || t.is_bool() || t.is_char() {
			if let Some(int) = c.const_.try_eval_scalar_int(tcx, self.env) {
				let v: String = if t.is_signed() {
					let size = int.size();
					let bits = int.to_bits(size);
					size.sign_extend(bits).to_string()
				} else {
					int.to_bits(int.size()).to_string()
				};
				let name = match c.const_ {
					mir::Const::Unevaluated(u, _) => format!(",\"name\":{}", js(&self.path(u.def))),
					_ => String::new(),
				};
				return format!("{{\"c\":\"int\",\"t\":{tid},\"v\":{v}{name}}}");
			}
		}
		// String literals.
		if let ty::Ref(_, inner, _) = *t.kind() {
			if inner.is_str() {
				if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
					if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(tcx) {
						if let Ok(s) = std::str::from_utf8(bytes) {
							return format!("{{\"c\":\"str\",\"t\":{tid},\"v\":{}}}", js(s));
						}
					}
				}
			}
		}
		let s = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
		format!("{{\"c\":\"other\",\"t\":{tid},\"v\":{}}}", js(&s))
	}

	fn place(&mut self, p: &mir::Place<'tcx>) -> String {
		let mut pr = Vec::new();
		for e in p.projection.iter() {
			pr.push(match e {
				mir::ProjectionElem::Deref => "\"*\"".to_string(),
				mir::ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
				mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
				mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
				mir::ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
				mir::ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
				_ => "\"~\"".to_string(),
			});
		}
		format!("[{},{}]", p.local.as_usize(), arr(pr))
	}

	fn operand(&mut self, o: &mir::Operand<'tcx>) -> String {
		match o {
			mir::Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
			mir::Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
			mir::Operand::Constant(c) => format!("{{\"o\":\"const\",\"k\":{}}}", self.const_(c, None)),
			mir::Operand::RuntimeChecks(_) => "{\"o\":\"rtcheck\"}".to_string(),
		}
	}

	fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> String {
		match r {
			mir::Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(o)),
			mir::Rvalue::Repeat(o, n) => {
				let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
				format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.operand(o), n)
			},
			mir::Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"mut\":{},\"fake\":{},\"p\":{}}}",
				matches!(bk, mir::BorrowKind::Mut { .. }), matches!(bk, mir::BorrowKind::Fake(_)), self.place(p)),
			mir::Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"mut\":true,\"fake\":false,\"p\":{}}}", self.place(p)),
			mir::Rvalue::Reborrow(_, _, p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
			mir::Rvalue::ThreadLocalRef(_) => "{\"r\":\"other\"}".to_string(),
			mir::Rvalue::Cast(k, o, t) => {
				let k = format!("{k:?}");
				format!("{{\"r\":\"cast\",\"ck\":{},\"a\":{},\"t\":{}}}", js(&k), self.operand(o), self.ty(*t))
			},
			mir::Rvalue::BinaryOp(op, ab) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(&ab.0), self.operand(&ab.1)),
			mir::Rvalue::UnaryOp(op, a) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
			mir::Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(p)),
			mir::Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
			mir::Rvalue::Aggregate(k, ops) => {
				let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
				let os = arr(os);
				let k = match **k {
					mir::AggregateKind::Array(t) => format!("\"ak\":\"array\",\"t\":{}", self.ty(t)),
					mir::AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
					mir::AggregateKind::Adt(def, v, args, _, uf) => {
						let t = Ty::new_adt(self.tcx, self.tcx.adt_def(def), args);
						let t = self.ty(t);
						format!("\"ak\":\"adt\",\"adt\":{},\"v\":{},\"t\":{}{}", js(&self.path(def)), v.as_usize(), t,
							uf.map(|f| format!(",\"uf\":{}", f.as_usize())).unwrap_or_default())
					},
					mir::AggregateKind::Closure(def, args) => {
						let t = self.ty(Ty::new_closure(self.tcx, def, args));
						format!("\"ak\":\"closure\",\"t\":{t}")
					},
					mir::AggregateKind::Coroutine(def, args) => {
						let t = self.ty(Ty::new_coroutine(self.tcx, def, args));
						format!("\"ak\":\"coroutine\",\"t\":{t}")
					},
					_ => "\"ak\":\"other\"".to_string(),
				};
				format!("{{\"r\":\"agg\",{k},\"ops\":{os}}}")
			},
			_ => "{\"r\":\"other\"}".to_string(),
		}
	}

	fn terminator(&mut self, t: &mir::Terminator<'tcx>) -> String {
		let (_, line) = self.line(t.source_info.span);
		let desugar = match t.source_info.span.desugaring_kind() {
			Some(d) => format!(",\"ds\":\"{d:?}\""),
			None => String::new(),
		};
		let unw = |u: &mir::UnwindAction| match u {
			mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(),
			_ => "null".to_string(),
		};
		let b = match &t.kind {
			mir::TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_usize()),
			mir::TerminatorKind::SwitchInt { discr, targets } => {
				let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
				let dty = match discr {
					mir::Operand::Copy(_) | mir::Operand::Move(_) | mir::Operand::Constant(_) => "".to_string(),
					_ => "".to_string(),
				};
				format!("\"k\":\"switch\",\"d\":{},\"vs\":{},\"o\":{}{}", self.operand(discr), arr(vs), targets.otherwise().as_usize(), dty)
			},
			mir::TerminatorKind::Return => "\"k\":\"return\"".to_string(),
			mir::TerminatorKind::Unreachable => "\"k\":\"unreachable\"".to_string(),
			mir::TerminatorKind::UnwindResume => "\"k\":\"resume\"".to_string(),
			mir::TerminatorKind::UnwindTerminate(_) => "\"k\":\"abort\"".to_string(),
			mir::TerminatorKind::CoroutineDrop => "\"k\":\"cdrop\"".to_string(),
			mir::TerminatorKind::Drop { place, target, unwind, .. } => {
				format!("\"k\":\"drop\",\"p\":{},\"t\":{},\"u\":{}", self.place(place), target.as_usize(), unw(unwind))
			},
			mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
				let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
				format!("\"k\":\"call\",\"f\":{},\"a\":{},\"dst\":{},\"t\":{},\"u\":{}", self.operand(func), arr(a), self.place(destination),
					target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), unw(unwind))
			},
			mir::TerminatorKind::TailCall { .. } => "\"k\":\"tailcall\"".to_string(),
			mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
				let m = match &**msg {
					mir::AssertKind::BoundsCheck { len, index } => format!("\"m\":\"bounds\",\"len\":{},\"idx\":{}", self.operand(len), self.operand(index)),
					mir::AssertKind::Overflow(op, a, b) => format!("\"m\":\"overflow\",\"op\":\"{:?}\",\"x\":{},\"y\":{}", op, self.operand(a), self.operand(b)),
					mir::AssertKind::ResumedAfterReturn(_) | mir::AssertKind::ResumedAfterPanic(_) | mir::AssertKind::ResumedAfterDrop(_) => "\"m\":\"resumed\"".to_string(),
					mir::AssertKind::MisalignedPointerDereference { .. } | mir::AssertKind::NullPointerDereference | mir::AssertKind::NullReferenceConstructed | mir::AssertKind::InvalidEnumConstruction(_) => "\"m\":\"ub\"".to_string(),
					mir::AssertKind::OverflowNeg(_) => "\"m\":\"neg\"".to_string(),
					_ => "\"m\":\"div\"".to_string(),
				};
				format!("\"k\":\"assert\",\"c\":{},\"e\":{},{},\"t\":{}", self.operand(cond), expected, m, target.as_usize())
			},
			mir::TerminatorKind::Yield { value, resume, resume_arg, .. } => {
				format!("\"k\":\"yield\",\"v\":{},\"t\":{},\"ra\":{}", self.operand(value), resume.as_usize(), self.place(resume_arg))
			},
			mir::TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
			mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
			mir::TerminatorKind::InlineAsm { .. } => "\"k\":\"asm\"".to_string(),
		};
		format!("{{{b},\"l\":{line}{desugar}}}")
	}

	fn run_job(&mut self, job: Job<'tcx>) {
		let tcx = self.tcx;
		self.root = job.root;
		self.depth = job.depth;
		self.env = TypingEnv::post_analysis(tcx, job.root);
		let InstanceKind::Item(def) = job.instance.def else { return };
		let raw: mir::Body<'tcx> = if let Some(l) = def.as_local() {
			let (b, pr) = &self.bodies[&l];
			match job.promoted {
				Some(p) => pr[p].clone(),
				None => b.clone(),
			}
		} else {
			match job.promoted {
				Some(p) => tcx.promoted_mir(def)[p].clone(),
				None => tcx.optimized_mir(def).clone(),
			}
		};
		let body = match job.instance.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone())) {
			Ok(b) => b,
			Err(_) => raw,
		};
		let mut o = String::new();
		let (file, line) = self.line(tcx.def_span(def));
		let p = self.path(def);
		let tc = if job.promoted.is_some() { "promoted" } else {
			match tcx.def_kind(def) {
				DefKind::Closure => if tcx.is_coroutine(def) { "coroutine" } else { "closure" },
				_ => "fn",
			}
		};
		let _ = write!(o, "{{\"id\":{},\"path\":{},\"kind\":\"{}\",\"local\":{},\"file\":{},\"line\":{},\"argc\":{}", job.id, js(&p), tc, def.is_local(), js(&file), line, body.arg_count);
		let iargs: Vec<String> = job.instance.args.types().map(|t| self.ty(t).to_string()).collect();
		let _ = write!(o, ",\"args\":{}", arr(iargs));
		// Is this the generic, un-instantiated version of the item?
		let ident = ty::GenericArgs::identity_for_item(tcx, def);
		let is_root = def.as_local() == Some(job.root) && job.promoted.is_none() && tcx.erase_and_anonymize_regions(ident) == tcx.erase_and_anonymize_regions(job.instance.args);
		let _ = write!(o, ",\"root\":{is_root}");
		if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
			let _ = write!(o, ",\"pub\":{}", tcx.visibility(def).is_public());
			let _ = write!(o, ",\"async\":{}", tcx.asyncness(def).is_async());
		}
		if let Some(imp) = tcx.impl_of_assoc(def) {
			let st = tcx.type_of(imp).instantiate_identity().skip_normalization();
			let _ = write!(o, ",\"impl_self\":{}", self.ty(st));
			if let Some(trd) = tcx.impl_opt_trait_ref(imp) {
				let tr = trd.instantiate_identity().skip_normalization().def_id;
				let _ = write!(o, ",\"impl_trait\":{}", js(&self.path(tr)));
			}
		}
		if let Some(tr) = tcx.trait_of_assoc(def) {
			let _ = write!(o, ",\"in_trait\":{}", js(&self.path(tr)));
		}
		// Debug names.
		let mut names: Vec<String> = Vec::new();
		for v in &body.var_debug_info {
			if let mir::VarDebugInfoContents::Place(pl) = &v.value {
				names.push(format!("[{},{}]", js(v.name.as_str()), self.place(pl)));
			}
		}
		let _ = write!(o, ",\"names\":{}", arr(names));
		let mut locals = Vec::new();
		for l in body.local_decls.iter() {
			locals.push(self.ty(l.ty).to_string());
		}
		let _ = write!(o, ",\"locals\":{}", arr(locals));
		let mut blocks = Vec::new();
		for bb in body.basic_blocks.iter() {
			let mut st = Vec::new();
			for s in &bb.statements {
				let (_, line) = self.line(s.source_info.span);
				match &s.kind {
					mir::StatementKind::Assign(pr) => st.push(format!("{{\"p\":{},\"v\":{},\"l\":{}}}", self.place(&pr.0), self.rvalue(&pr.1), line)),
					mir::StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("{{\"p\":{},\"sd\":{},\"l\":{}}}", self.place(place), variant_index.as_usize(), line)),
					mir::StatementKind::StorageDead(l) => st.push(format!("{{\"dead\":{}}}", l.as_usize())),
					mir::StatementKind::StorageLive(l) => st.push(format!("{{\"live\":{}}}", l.as_usize())),
					_ => {},
				}
			}
			let t = self.terminator(bb.terminator());
			blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), t, bb.is_cleanup));
		}
		let _ = write!(o, ",\"blocks\":{}}}", arr(blocks));
		self.fn_json[job.id] = o;
	}
}

struct Cb;

impl Callbacks for Cb {
	fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
		let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
		let wanted = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
		let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
		if !wanted.split(',').any(|x| x == name) || tcx.sess.is_test_crate() {
			return Compilation::Continue;
		}
		let mut bodies = HashMap::new();
		let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
		for &l in &owners {
			if tcx.is_typeck_child(l.to_def_id()) && !tcx.is_closure_like(l.to_def_id()) {
				continue;
			}
			let (b, p) = tcx.mir_promoted(l);
			if b.is_stolen() || p.is_stolen() {
				// Constants and const functions that were already evaluated.
				if tcx.is_mir_available(l.to_def_id()) || !matches!(tcx.def_kind(l), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
					bodies.insert(l, (tcx.mir_for_ctfe(l.to_def_id()).clone(), tcx.promoted_mir(l.to_def_id()).clone()));
				}
				continue;
			}
			bodies.insert(l, (b.borrow().clone(), p.borrow().clone()));
		}
		let first = owners[0];
		let mut d = Dumper {
			tcx,
			bodies,
			ty_ids: HashMap::new(),
			ty_json: Vec::new(),
			adt_seen: HashSet::new(),
			adt_json: Vec::new(),
			fn_ids: HashMap::new(),
			fn_json: Vec::new(),
			queue: VecDeque::new(),
			env: TypingEnv::post_analysis(tcx, first),
			root: first,
			depth: 0,
		};
		let mut roots = 0;
		for &l in &owners {
			let k = tcx.def_kind(l);
			if !matches!(k, DefKind::Fn | DefKind::AssocFn) {
				continue;
			}
			roots += 1;
			d.root = l;
			d.depth = 0;
			d.env = TypingEnv::post_analysis(tcx, l);
			let args = ty::GenericArgs::identity_for_item(tcx, l);
			let args = tcx.erase_and_anonymize_regions(args);
			d.enqueue(Instance::new_raw(l.to_def_id(), args), None);
			while let Some(j) = d.queue.pop_front() {
				d.run_job(j);
			}
		}
		// All local ADTs.
		for id in tcx.hir_crate_items(()).definitions() {
			if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
				d.adt(id.to_def_id());
			}
		}
		// Local trait impls.
		let mut impls = Vec::new();
		for id in tcx.hir_crate_items(()).definitions() {
			if matches!(tcx.def_kind(id), DefKind::Impl { of_trait: true }) {
				let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_normalization();
				let (f, ln) = d.line(tcx.def_span(id));
				let tp = d.path(tr.def_id);
				let s = ty::print::with_no_trimmed_paths!(format!("{}", tr.self_ty()));
				let neg = format!("{:?}", tcx.impl_polarity(id));
				impls.push(format!("{{\"trait\":{},\"self\":{},\"file\":{},\"line\":{},\"pol\":{}}}", js(&tp), js(&s), js(&f), ln, js(&neg)));
			}
		}
		let s = format!("{{\"crate\":{},\"roots\":{},\"types\":{},\n\"adts\":{},\n\"impls\":{},\n\"fns\":[\n{}\n]}}\n", js(&name), roots,
			arr(d.ty_json), arr(d.adt_json), arr(impls), d.fn_json.join(",\n"));
		let path = format!("{out}/{name}.json");
		std::fs::write(&path, s).expect("write MIR dump");
		Compilation::Continue
	}
}

fn main() -> std::process::ExitCode {
	let mut args: Vec<String> = std::env::args().collect();
	// As RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
	if args.len() > 1 && args[1].ends_with("rustc") {
		args.remove(1);
	}
	rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
