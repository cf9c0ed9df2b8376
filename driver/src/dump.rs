use std::collections::BTreeMap;

use rustc_hir::{def::DefKind, def_id::DefId};
use rustc_middle::{
  mir::{interpret::Scalar, *},
  ty::{self, print::with_no_trimmed_paths, Ty, TyCtxt, TypingEnv},
};
use rustc_span::Span;

use crate::json::J;

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  adts: BTreeMap<String, J>,
}

pub fn dump_crate(tcx: TyCtxt<'_>) -> String {
  let mut cx = Cx { tcx, adts: BTreeMap::new() };
  // make sure every body went through borrowck
  for def in tcx.hir().body_owners() {
    let _ = tcx.mir_borrowck(def);
  }
  let stored = crate::BODIES.with(|v| std::mem::take(&mut *v.borrow_mut()));
  let mut fns = Vec::new();
  let mut seen = std::collections::HashSet::new();
  for st in &stored {
    if !seen.insert(st.def) {
      continue;
    }
    let body: &Body<'_> = unsafe { std::mem::transmute(&st.body) };
    let mut o = cx.func(st.def.to_def_id(), body);
    let mut ps = Vec::new();
    for p in st.promoted.iter() {
      let p: &Body<'_> = unsafe { std::mem::transmute(p) };
      ps.push(cx.body(st.def.to_def_id(), p));
    }
    o.push(("promoted", J::Arr(ps)));
    fns.push(J::Obj(o));
  }
  // local ADTs, whether used or not
  for id in tcx.hir_crate_items(()).definitions() {
    if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
      cx.adt(tcx.adt_def(id.to_def_id()));
    }
  }
  let mut impls = Vec::new();
  for id in tcx.hir_crate_items(()).definitions() {
    if let DefKind::Impl { .. } = tcx.def_kind(id) {
      let did = id.to_def_id();
      let tr = tcx.impl_trait_ref(did).map(|t| t.instantiate_identity());
      let mut items = Vec::new();
      for it in tcx.associated_items(did).in_definition_order() {
        items.push(J::s(it.name.to_string()));
      }
      impls.push(J::Obj(vec![
        ("id", J::s(cx.id(did))),
        ("self", J::s(cx.ty(tcx.type_of(did).instantiate_identity()))),
        ("trait", J::opt(tr.map(|t| with_no_trimmed_paths!(tcx.def_path_str(t.def_id))))),
        ("trait_args", J::opt(tr.map(|t| with_no_trimmed_paths!(t.to_string())))),
        ("items", J::Arr(items)),
      ]));
    }
  }
  let top = J::Obj(vec![
    ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
    ("fns", J::Arr(fns)),
    ("impls", J::Arr(impls)),
    ("adts", J::Map(std::mem::take(&mut cx.adts).into_iter().collect())),
  ]);
  let mut s = String::new();
  top.write(&mut s);
  s
}

impl<'tcx> Cx<'tcx> {
  fn id(&self, d: DefId) -> String {
    let k = self.tcx.crate_name(d.krate);
    format!("{}{}", k, self.tcx.def_path(d).to_string_no_crate_verbose())
  }
  fn path(&self, d: DefId) -> String {
    with_no_trimmed_paths!(self.tcx.def_path_str(d))
  }
  fn ty(&self, t: Ty<'tcx>) -> String {
    let t = self.tcx.erase_regions(t);
    with_no_trimmed_paths!(t.to_string())
  }

  fn adt(&mut self, adt: ty::AdtDef<'tcx>) -> String {
    let p = self.path(adt.did());
    if self.adts.contains_key(&p) {
      return p;
    }
    let mut vs = Vec::new();
    for (i, v) in adt.variants().iter_enumerated() {
      let d = if adt.is_enum() {
        adt.discriminant_for_variant(self.tcx, i).val as i128
      } else {
        0
      };
      let fs = v
        .fields
        .iter()
        .map(|f| {
          J::Obj(vec![
            ("name", J::s(f.name.to_string())),
            ("ty", J::s(self.ty(self.tcx.type_of(f.did).instantiate_identity()))),
          ])
        })
        .collect();
      vs.push(J::Obj(vec![
        ("name", J::s(v.name.to_string())),
        ("discr", J::Int(d)),
        ("fields", J::Arr(fs)),
      ]));
    }
    let j = J::Obj(vec![
      ("kind", J::s(if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" })),
      ("local", J::Bool(adt.did().is_local())),
      ("id", J::s(self.id(adt.did()))),
      ("variants", J::Arr(vs)),
    ]);
    self.adts.insert(p.clone(), j);
    p
  }

  fn line(&self, sp: Span) -> i128 {
    let sp = sp.source_callsite();
    self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as i128
  }

  fn macs(&self, sp: Span) -> J {
    let mut v = Vec::new();
    for e in sp.macro_backtrace() {
      if let Some(d) = e.macro_def_id {
        v.push(J::s(self.path(d)));
      }
    }
    J::Arr(v)
  }

  fn func(&mut self, def: DefId, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
    let tcx = self.tcx;
    let loc = tcx.sess.source_map().lookup_char_pos(tcx.def_span(def).source_callsite().lo());
    let kind = tcx.def_kind(def);
    let parent = tcx.opt_parent(def);
    let name = tcx.opt_item_name(def).map(|s| s.to_string());
    let mut self_ty = None;
    let mut of_trait = None;
    let mut derived = false;
    if let Some(p) = parent {
      match tcx.def_kind(p) {
        DefKind::Impl { .. } => {
          self_ty = Some(self.ty(tcx.type_of(p).instantiate_identity()));
          derived = tcx.is_automatically_derived(p);
          of_trait = tcx
            .impl_trait_ref(p)
            .map(|t| with_no_trimmed_paths!(t.instantiate_identity().to_string()));
        }
        DefKind::Trait => {
          self_ty = Some("Self".into());
          of_trait = Some(self.path(p));
        }
        _ => {}
      }
    }
    let from_exp = tcx.def_span(def).from_expansion();
    let mut captures = Vec::new();
    if tcx.is_closure_like(def) {
      if let Some(l) = def.as_local() {
        for c in tcx.closure_captures(l) {
          captures.push(J::Obj(vec![
            ("name", J::s(c.to_symbol().to_string())),
            ("by", J::s(format!("{:?}", c.info.capture_kind))),
          ]));
        }
      }
    }
    let mut gparams = Vec::new();
    for g in ty::GenericArgs::identity_for_item(tcx, def).iter() {
      if let Some(t) = g.as_type() {
        gparams.push(J::s(self.ty(t)));
      }
    }
    vec![
      ("id", J::s(self.id(def))),
      ("path", J::s(self.path(def))),
      ("name", J::opt(name)),
      ("kind", J::s(format!("{kind:?}"))),
      ("coroutine", J::Bool(tcx.is_coroutine(def))),
      ("parent", J::opt(parent.map(|p| self.id(p)))),
      ("self_ty", J::opt(self_ty)),
      ("of_trait", J::opt(of_trait)),
      ("derived", J::Bool(derived)),
      ("from_expansion", J::Bool(from_exp)),
      ("file", J::s(format!("{}", loc.file.name.prefer_local()))),
      ("line", J::Int(loc.line as i128)),
      ("vis", J::s(if matches!(kind, DefKind::Fn | DefKind::AssocFn) { format!("{:?}", tcx.visibility(def)) } else { String::new() })),
      ("captures", J::Arr(captures)),
      ("generics", J::Arr(gparams)),
      ("body", self.body(def, body)),
    ]
  }

  fn body(&mut self, def: DefId, body: &Body<'tcx>) -> J {
    let mut locals = Vec::new();
    for (_, d) in body.local_decls.iter_enumerated() {
      let mut o = vec![("ty", J::s(self.ty(d.ty)))];
      if d.is_user_variable() {
        o.push(("user", J::Bool(true)));
      }
      if let Some(a) = d.ty.peel_refs().ty_adt_def() {
        o.push(("adt", J::s(self.path(a.did()))));
      }
      locals.push(o);
    }
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() {
          let o = &mut locals[p.local.as_usize()];
          if !o.iter().any(|(k, _)| *k == "name") {
            o.push(("name", J::s(v.name.to_string())));
          }
        }
      }
    }
    let locals = locals.into_iter().map(J::Obj).collect();
    let mut blocks = Vec::new();
    for (_, bb) in body.basic_blocks.iter_enumerated() {
      if bb.is_cleanup {
        blocks.push(J::Null);
        continue;
      }
      let mut ss = Vec::new();
      for s in &bb.statements {
        if let Some(mut o) = self.stmt(def, body, s) {
          o.push(("ln", J::Int(self.line(s.source_info.span))));
          ss.push(J::Obj(o));
        }
      }
      let t = bb.terminator();
      let mut o = self.term(def, body, t);
      o.push(("ln", J::Int(self.line(t.source_info.span))));
      if t.source_info.span.from_expansion() {
        o.push(("mac", self.macs(t.source_info.span)));
      }
      blocks.push(J::Obj(vec![("s", J::Arr(ss)), ("t", J::Obj(o))]));
    }
    J::Obj(vec![
      ("argc", J::Int(body.arg_count as i128)),
      ("locals", J::Arr(locals)),
      ("blocks", J::Arr(blocks)),
      (
        "spread",
        match body.spread_arg {
          Some(l) => J::Int(l.as_usize() as i128),
          None => J::Null,
        },
      ),
    ])
  }

  fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
    let tcx = self.tcx;
    let mut pt = rustc_middle::mir::tcx::PlaceTy::from_ty(body.local_decls[p.local].ty);
    let mut ps = Vec::new();
    for el in p.projection.iter() {
      let j = match el {
        ProjectionElem::Deref => J::Arr(vec![J::s("*"), J::s(self.ty(pt.ty))]),
        ProjectionElem::Field(f, _) => {
          let (name, owner, var) = match pt.ty.kind() {
            ty::Adt(a, _) => {
              let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
              let v = a.variant(vi);
              let o = self.adt(*a);
              (v.fields[f].name.to_string(), Some(o), Some(v.name.to_string()))
            }
            ty::Closure(d, _) | ty::Coroutine(d, _) | ty::CoroutineClosure(d, _) => {
              let n = d
                .as_local()
                .and_then(|l| {
                  tcx
                    .closure_captures(l)
                    .get(f.as_usize())
                    .map(|c| c.to_symbol().to_string())
                })
                .unwrap_or_else(|| f.as_usize().to_string());
              (n, Some("<closure>".to_string()), None)
            }
            _ => (f.as_usize().to_string(), None, None),
          };
          J::Arr(vec![
            J::s("f"),
            J::Int(f.as_usize() as i128),
            J::s(name),
            J::opt(owner),
            J::opt(var),
          ])
        }
        ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::Int(l.as_usize() as i128)]),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
          J::s("ci"),
          J::Int(offset as i128),
          J::Int(min_length as i128),
          J::Bool(from_end),
        ]),
        ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
          J::s("sub"),
          J::Int(from as i128),
          J::Int(to as i128),
          J::Bool(from_end),
        ]),
        ProjectionElem::Downcast(name, vi) => {
          let mut n = name.map(|n| n.to_string());
          if let ty::Adt(a, _) = pt.ty.kind() {
            n = Some(a.variant(vi).name.to_string());
            self.adt(*a);
          }
          J::Arr(vec![
            J::s("d"),
            J::Int(vi.as_usize() as i128),
            J::opt(n),
            match pt.ty.kind() {
              ty::Adt(a, _) => J::s(self.path(a.did())),
              _ => J::Null,
            },
          ])
        }
        ProjectionElem::OpaqueCast(_) | ProjectionElem::Subtype(_) => {
          pt = pt.projection_ty(tcx, el);
          continue;
        }
      };
      ps.push(j);
      pt = pt.projection_ty(tcx, el);
    }
    J::Obj(vec![("l", J::Int(p.local.as_usize() as i128)), ("p", J::Arr(ps))])
  }

  fn operand(&mut self, def: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
    match o {
      Operand::Copy(p) => J::Obj(vec![("k", J::s("copy")), ("p", self.place(body, p))]),
      Operand::Move(p) => J::Obj(vec![("k", J::s("move")), ("p", self.place(body, p))]),
      Operand::Constant(c) => self.constant(def, c),
    }
  }

  fn env(&self, def: DefId) -> TypingEnv<'tcx> {
    TypingEnv::post_analysis(self.tcx, def)
  }

  fn constant(&mut self, def: DefId, c: &ConstOperand<'tcx>) -> J {
    let tcx = self.tcx;
    let ty = c.const_.ty();
    let mut o = vec![("k", J::s("const")), ("ty", J::s(self.ty(ty)))];
    if let ty::FnDef(d, args) = ty.kind() {
      let sig = tcx.instantiate_bound_regions_with_erased(ty.fn_sig(tcx));
      let mut f = self.callee(def, *d, args);
      if let J::Obj(f) = &mut f {
        let mut show = |t| {
          let t = tcx.try_normalize_erasing_regions(self.env(def), t).unwrap_or(t);
          J::s(self.ty(t))
        };
        let out = show(sig.output());
        let ins = sig.inputs().iter().map(|t| show(*t)).collect();
        f.push(("ins", J::Arr(ins)));
        f.push(("out", out));
      }
      o.push(("fn", f));
      return J::Obj(o);
    }
    if let Const::Unevaluated(u, _) = c.const_ {
      if let Some(p) = u.promoted {
        o.push(("promoted", J::Int(p.as_usize() as i128)));
        o.push(("owner", J::s(self.id(u.def))));
        return J::Obj(o);
      }
      o.push(("path", J::s(self.path(u.def))));
      o.push(("cid", J::s(self.id(u.def))));
      let ga: Vec<J> = u.args.types().map(|t| J::s(self.ty(t))).collect();
      o.push(("cargs", J::Arr(ga)));
    }
    if let Const::Ty(_, ct) = c.const_ {
      o.push(("cty", J::s(with_no_trimmed_paths!(ct.to_string()))));
    }
    let poly = c.const_.has_param_();
    if !poly {
      if let Ok(v) = c.const_.eval(tcx, self.env(def), c.span) {
        match v {
          ConstValue::Scalar(Scalar::Int(i)) => {
            let bits = i.to_bits(i.size());
            let val = match ty.kind() {
              ty::Int(_) => {
                let n = i.size().bits();
                if n == 128 { bits as i128 } else {
                  let sh = 128 - n as u32;
                  ((bits << sh) as i128) >> sh
                }
              }
              _ => bits as i128,
            };
            if ty.is_bool() {
              o.push(("bool", J::Bool(val != 0)));
            } else if ty.is_char() {
              o.push(("char", J::s(char::from_u32(val as u32).map(|c| c.to_string()).unwrap_or_default())));
            } else {
              o.push(("int", J::Int(val)));
            }
          }
          ConstValue::Scalar(Scalar::Ptr(p, _)) => {
            let aid = p.provenance.alloc_id();
            match tcx.global_alloc(aid) {
              rustc_middle::mir::interpret::GlobalAlloc::Static(d) => {
                o.push(("static", J::s(self.path(d))));
                o.push(("sid", J::s(self.id(d))));
              }
              rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => {
                // byte strings: &[u8; N]
                let inner = a.inner();
                if let ty::Ref(_, t, _) = ty.kind() {
                  if let ty::Array(e, _) = t.kind() {
                    if *e == tcx.types.u8 && inner.provenance().ptrs().is_empty() {
                      let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..inner.len());
                      o.push(("bytes", J::s(String::from_utf8_lossy(b).to_string())));
                    }
                  }
                }
              }
              _ => {}
            }
          }
          ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
          ConstValue::Slice { .. } => {
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
              o.push(("str", J::s(String::from_utf8_lossy(b).to_string())));
            }
          }
          ConstValue::Indirect { .. } => {
            if let ty::Adt(a, _) = ty.kind() {
              if a.is_enum() && a.variants().iter().all(|v| v.fields.is_empty()) {
                self.adt(*a);
              }
            }
          }
        }
      }
    }
    // fieldless enum constants and single-level ADT constants
    if !poly {
      if let ty::Adt(a, _) = ty.kind() {
        if !a.is_union() {
          if let Ok(v) = c.const_.eval(tcx, self.env(def), c.span) {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
              let var = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
              let vd = a.variant(var);
              let ap = self.adt(*a);
              let mut fs = Vec::new();
              let mut ok = true;
              for (i, (fv, ft)) in d.fields.iter().enumerate() {
                let n = vd.fields[rustc_abi::FieldIdx::from_usize(i)].name.to_string();
                match fv {
                  ConstValue::Scalar(Scalar::Int(x)) => {
                    let b = x.to_bits(x.size()) as i128;
                    fs.push(J::Arr(vec![
                      J::s(n),
                      if ft.is_bool() { J::Bool(b != 0) } else { J::Int(b) },
                    ]));
                  }
                  _ => ok = false,
                }
              }
              if ok {
                o.push(("adtc", J::Obj(vec![
                  ("adt", J::s(ap)),
                  ("variant", J::s(vd.name.to_string())),
                  ("fields", J::Arr(fs)),
                ])));
              }
            }
          }
        }
      }
    }
    J::Obj(o)
  }

  fn callee(&mut self, def: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
    let tcx = self.tcx;
    let args = tcx.erase_regions(args);
    let mut o = vec![
      ("path", J::s(self.path(d))),
      ("id", J::s(self.id(d))),
      ("name", J::opt(tcx.opt_item_name(d).map(|s| s.to_string()))),
      ("local", J::Bool(d.is_local())),
    ];
    if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
      // tuple struct / variant constructor used as a function
      let parent = tcx.parent(d);
      let (adt_did, variant) = if tcx.def_kind(parent) == DefKind::Variant {
        (tcx.parent(parent), tcx.item_name(parent).to_string())
      } else {
        (parent, tcx.item_name(parent).to_string())
      };
      let a = self.adt(tcx.adt_def(adt_did));
      o.push(("ctor", J::Arr(vec![J::s(a), J::s(variant)])));
    }
    let mut gs = Vec::new();
    for a in args.iter() {
      if let Some(t) = a.as_type() {
        let mut g = vec![("ty", J::s(self.ty(t)))];
        match t.kind() {
          ty::Closure(c, _) | ty::Coroutine(c, _) => g.push(("closure", J::s(self.id(*c)))),
          ty::FnDef(c, _) => g.push(("fndef", J::s(self.id(*c)))),
          _ => {}
        }
        gs.push(J::Obj(g));
      }
    }
    o.push(("targs", J::Arr(gs)));
    if let Some(tr) = tcx.trait_of_item(d) {
      o.push(("trait", J::s(self.path(tr))));
    } else if let Some(im) = tcx.impl_of_method(d) {
      let sty = tcx.type_of(im).instantiate(tcx, args);
      o.push(("impl_self", J::s(self.ty(sty))));
    }
    let env = self.env(def);
    // resolution may ICE on unnormalisable input: only try when there are no escaping bound vars
    let norm = tcx.try_normalize_erasing_regions(env, args);
    if let Ok(nargs) = norm {
      if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, nargs) {
        let rd = inst.def_id();
        if rd != d {
          o.push(("rpath", J::s(self.path(rd))));
          o.push(("rid", J::s(self.id(rd))));
          o.push(("rlocal", J::Bool(rd.is_local())));
        }
        o.push(("inst", J::s(match inst.def {
          ty::InstanceKind::Item(_) => "item",
          ty::InstanceKind::Virtual(..) => "virtual",
          ty::InstanceKind::ClosureOnceShim { .. } => "closure_once",
          ty::InstanceKind::FnPtrShim(..) => "fnptr",
          ty::InstanceKind::CloneShim(..) => "clone",
          ty::InstanceKind::Intrinsic(..) => "intrinsic",
          _ => "other",
        })));
      }
    }
    J::Obj(o)
  }

  fn stmt(
    &mut self,
    def: DefId,
    body: &Body<'tcx>,
    s: &Statement<'tcx>,
  ) -> Option<Vec<(&'static str, J)>> {
    match &s.kind {
      StatementKind::Assign(b) => {
        let (p, r) = &**b;
        Some(vec![
          ("k", J::s("assign")),
          ("p", self.place(body, p)),
          ("r", self.rvalue(def, body, r)),
        ])
      }
      StatementKind::SetDiscriminant { place, variant_index } => Some(vec![
        ("k", J::s("setdisc")),
        ("p", self.place(body, place)),
        ("v", J::Int(variant_index.as_usize() as i128)),
      ]),
      StatementKind::StorageDead(l) => {
        Some(vec![("k", J::s("dead")), ("l", J::Int(l.as_usize() as i128))])
      }
      _ => None,
    }
  }

  fn rvalue(&mut self, def: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
    let tcx = self.tcx;
    let mut v = match r {
      Rvalue::Use(o) => vec![("k", J::s("use")), ("o", self.operand(def, body, o))],
      Rvalue::Repeat(o, c) => vec![
        ("k", J::s("repeat")),
        ("o", self.operand(def, body, o)),
        ("n", J::s(c.to_string())),
      ],
      Rvalue::Ref(_, bk, p) => vec![
        ("k", J::s("ref")),
        ("m", J::s(match bk {
          BorrowKind::Shared => "shared",
          BorrowKind::Fake(_) => "fake",
          BorrowKind::Mut { .. } => "mut",
        })),
        ("p", self.place(body, p)),
      ],
      Rvalue::RawPtr(_, p) => vec![("k", J::s("rawptr")), ("p", self.place(body, p))],
      Rvalue::ThreadLocalRef(d) => vec![("k", J::s("tls")), ("path", J::s(self.path(*d)))],
      Rvalue::Len(p) => vec![("k", J::s("len")), ("p", self.place(body, p))],
      Rvalue::Cast(k, o, t) => vec![
        ("k", J::s("cast")),
        ("ck", J::s(format!("{k:?}"))),
        ("o", self.operand(def, body, o)),
        ("ty", J::s(self.ty(*t))),
      ],
      Rvalue::BinaryOp(op, b) => vec![
        ("k", J::s("bin")),
        ("op", J::s(format!("{op:?}"))),
        ("a", self.operand(def, body, &b.0)),
        ("b", self.operand(def, body, &b.1)),
      ],
      Rvalue::NullaryOp(op, t) => vec![
        ("k", J::s("nullary")),
        ("op", J::s(format!("{op:?}"))),
        ("ty", J::s(self.ty(*t))),
      ],
      Rvalue::UnaryOp(op, o) => vec![
        ("k", J::s("un")),
        ("op", J::s(format!("{op:?}"))),
        ("a", self.operand(def, body, o)),
      ],
      Rvalue::Discriminant(p) => {
        let t = p.ty(&body.local_decls, tcx).ty;
        let a = match t.kind() {
          ty::Adt(a, _) => J::s(self.adt(*a)),
          _ => J::Null,
        };
        vec![("k", J::s("disc")), ("p", self.place(body, p)), ("adt", a)]
      }
      Rvalue::Aggregate(k, ops) => {
        let mut o = vec![("k", J::s("agg"))];
        match &**k {
          AggregateKind::Array(_) => o.push(("ak", J::s("array"))),
          AggregateKind::Tuple => o.push(("ak", J::s("tuple"))),
          AggregateKind::Adt(d, vi, _, _, active) => {
            let a = tcx.adt_def(*d);
            let p = self.adt(a);
            let v = a.variant(*vi);
            o.push(("ak", J::s("adt")));
            o.push(("adt", J::s(p)));
            o.push(("variant", J::s(v.name.to_string())));
            if active.is_some() {
              o.push(("union", J::Bool(true)));
            }
            o.push((
              "fields",
              J::Arr(v.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
            ));
          }
          AggregateKind::Closure(d, _)
          | AggregateKind::Coroutine(d, _)
          | AggregateKind::CoroutineClosure(d, _) => {
            o.push(("ak", J::s(if matches!(&**k, AggregateKind::Closure(..)) { "closure" } else { "coroutine" })));
            o.push(("def", J::s(self.id(*d))));
            let names = d
              .as_local()
              .map(|l| {
                tcx
                  .closure_captures(l)
                  .iter()
                  .map(|c| J::s(c.to_symbol().to_string()))
                  .collect()
              })
              .unwrap_or_default();
            o.push(("fields", J::Arr(names)));
          }
          AggregateKind::RawPtr(..) => o.push(("ak", J::s("rawptr"))),
        }
        let ops = ops.iter().map(|x| self.operand(def, body, x)).collect();
        o.push(("ops", J::Arr(ops)));
        o
      }
      Rvalue::ShallowInitBox(o, _) => {
        vec![("k", J::s("use")), ("o", self.operand(def, body, o))]
      }
      Rvalue::CopyForDeref(p) => vec![
        ("k", J::s("use")),
        ("o", J::Obj(vec![("k", J::s("copy")), ("p", self.place(body, p))])),
      ],
    };
    if let Rvalue::Aggregate(..) = r {
      v.push(("ty", J::s(self.ty(r.ty(&body.local_decls, tcx)))));
    }
    J::Obj(v)
  }

  fn term(
    &mut self,
    def: DefId,
    body: &Body<'tcx>,
    t: &Terminator<'tcx>,
  ) -> Vec<(&'static str, J)> {
    let bb = |b: &BasicBlock| J::Int(b.as_usize() as i128);
    let tcx = self.tcx;
    match &t.kind {
      TerminatorKind::Goto { target } => vec![("k", J::s("goto")), ("t", bb(target))],
      TerminatorKind::FalseEdge { real_target, .. } => {
        vec![("k", J::s("goto")), ("t", bb(real_target))]
      }
      TerminatorKind::FalseUnwind { real_target, .. } => {
        vec![("k", J::s("goto")), ("t", bb(real_target))]
      }
      TerminatorKind::SwitchInt { discr, targets } => vec![
        ("k", J::s("switch")),
        ("o", self.operand(def, body, discr)),
        ("ty", J::s(self.ty(discr.ty(&body.local_decls, tcx)))),
        (
          "ts",
          J::Arr(
            targets
              .iter()
              .map(|(v, b)| J::Arr(vec![J::Int(v as i128), bb(&b)]))
              .collect(),
          ),
        ),
        ("else", bb(&targets.otherwise())),
      ],
      TerminatorKind::Return => vec![("k", J::s("return"))],
      TerminatorKind::Unreachable => vec![("k", J::s("unreachable"))],
      TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
        vec![("k", J::s("unreachable"))]
      }
      TerminatorKind::Drop { place, target, .. } => vec![
        ("k", J::s("drop")),
        ("p", self.place(body, place)),
        ("ty", J::s(self.ty(place.ty(&body.local_decls, tcx).ty))),
        ("t", bb(target)),
      ],
      TerminatorKind::Call { func, args, destination, target, .. } => vec![
        ("k", J::s("call")),
        ("f", self.operand(def, body, func)),
        (
          "args",
          J::Arr(args.iter().map(|a| self.operand(def, body, &a.node)).collect()),
        ),
        (
          "aty",
          J::Arr(
            args
              .iter()
              .map(|a| J::s(self.ty(a.node.ty(&body.local_decls, tcx))))
              .collect(),
          ),
        ),
        ("d", self.place(body, destination)),
        ("dty", J::s(self.ty(destination.ty(&body.local_decls, tcx).ty))),
        ("t", target.as_ref().map(|b| bb(b)).unwrap_or(J::Null)),
      ],
      TerminatorKind::TailCall { .. } => vec![("k", J::s("unreachable"))],
      TerminatorKind::Assert { cond, expected, target, msg, .. } => vec![
        ("k", J::s("assert")),
        ("o", self.operand(def, body, cond)),
        ("exp", J::Bool(*expected)),
        ("msg", J::s(format!("{:?}", std::mem::discriminant(&**msg)))),
        ("mk", J::s(match &**msg {
          AssertKind::BoundsCheck { .. } => "bounds",
          AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
          AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "div0",
          _ => "other",
        })),
        ("t", bb(target)),
      ],
      TerminatorKind::Yield { value, resume, resume_arg, .. } => vec![
        ("k", J::s("yield")),
        ("v", self.operand(def, body, value)),
        ("d", self.place(body, resume_arg)),
        ("t", bb(resume)),
      ],
      TerminatorKind::CoroutineDrop => vec![("k", J::s("unreachable"))],
      TerminatorKind::InlineAsm { .. } => vec![("k", J::s("unreachable"))],
    }
  }
}

trait HasParam {
  fn has_param_(&self) -> bool;
}
impl<'tcx> HasParam for Const<'tcx> {
  fn has_param_(&self) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    self.has_param() || self.has_escaping_bound_vars()
  }
}
