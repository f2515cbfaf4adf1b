// MIR extractor: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and writes the
// MIR of every local body (resolved callees, evaluated constants, structured types) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
}

impl<'tcx> Dump<'tcx> {
    // Canonical path: the crate and modules that define the item, whatever re-exports lead to it.
    fn path(&self, d: DefId) -> String {
        use rustc_hir::definitions::DefPathData as D;
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        let parent = match key.parent {
            None => return tcx.crate_name(d.krate).to_string(),
            Some(p) => DefId { krate: d.krate, index: p },
        };
        match key.disambiguated_data.data {
            D::Impl => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                match tcx.impl_opt_trait_ref(d) {
                    Some(tr) => {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let args: Vec<String> = tr.args.types().skip(1).map(|t| self.tystr(t)).collect();
                        let args = if args.is_empty() { String::new() } else { format!("<{}>", args.join(", ")) };
                        format!("<{} as {}{}>", self.tystr(st), self.path(tr.def_id), args)
                    }
                    None => match st.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        _ => format!("<{}>", self.tystr(st)),
                    },
                }
            }
            D::Closure => format!("{}::{{closure#{}}}", self.path(parent), key.disambiguated_data.disambiguator),
            D::Ctor => self.path(parent),
            D::ForeignMod => self.path(parent),
            _ => {
                let seg = match key.disambiguated_data.data.get_opt_name() {
                    Some(n) => n.to_string(),
                    None => format!("{{{:?}#{}}}", key.disambiguated_data.data, key.disambiguated_data.disambiguator),
                };
                format!("{}::{}", self.path(parent), seg)
            }
        }
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            ty::Adt(def, args) => {
                let a: Vec<String> = args
                    .iter()
                    .filter_map(|x| match x.kind() {
                        ty::GenericArgKind::Type(t) => Some(self.tystr(t)),
                        ty::GenericArgKind::Const(c) => Some(format!("{}", c)),
                        _ => None,
                    })
                    .collect();
                let p = self.path(def.did());
                if a.is_empty() { p } else { format!("{}<{}>", p, a.join(", ")) }
            }
            ty::Ref(_, i, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tystr(i)),
            ty::Slice(i) => format!("[{}]", self.tystr(i)),
            ty::Array(i, n) => format!("[{}; {}]", self.tystr(i), n),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|x| self.tystr(x)).collect::<Vec<_>>().join(", ")),
            ty::Closure(d, _) => format!("{{{}}}", self.path(d)),
            ty::FnDef(d, _) => format!("fn {}", self.path(d.into())),
            ty::Param(p) => p.name.to_string(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => format!("{}", t),
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)),
        }
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, String::new());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        if def.is_enum() {
            for (vi, discr) in def.discriminants(self.tcx) {
                let v = def.variant(vi);
                let fs: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                vs.push(format!(
                    "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                    esc(v.name.as_str()),
                    discr.val,
                    arr(fs)
                ));
            }
        } else {
            for v in def.variants() {
                let fs: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                vs.push(format!(
                    "{{\"name\":{},\"discr\":\"0\",\"fields\":{}}}",
                    esc(v.name.as_str()),
                    arr(fs)
                ));
            }
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let s = format!("{{\"kind\":\"{}\",\"variants\":{}}}", kind, arr(vs));
        self.adts.insert(d, s);
    }

    /// does a value of this type own interior-mutable state?
    fn has_cell(&self, t: Ty<'tcx>, depth: usize) -> bool {
        if depth > 6 {
            return false;
        }
        match *t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if p.starts_with("core::cell::") {
                    return p.ends_with("::RefCell") || p.ends_with("::Cell");
                }
                if p.starts_with("core::fmt::") || p.starts_with("std::hash") || p.starts_with("alloc::alloc") {
                    return false;
                }
                if args.types().any(|x| self.has_cell(x, depth + 1)) {
                    return true;
                }
                if def.did().is_local() || p.starts_with("nlsn_delaunay::") {
                    return def
                        .all_fields()
                        .any(|f| self.has_cell(f.ty(self.tcx, args).skip_norm_wip(), depth + 1));
                }
                false
            }
            ty::Array(i, _) | ty::Slice(i) => self.has_cell(i, depth + 1),
            ty::Tuple(ts) => ts.iter().any(|x| self.has_cell(x, depth + 1)),
            _ => false,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let ix = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, ix);
        let text = esc(&self.tystr(t));
        let s = match *t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"n\":{}", esc(i.name_str())),
            ty::Uint(i) => format!("\"k\":\"int\",\"n\":{}", esc(i.name_str())),
            ty::Float(i) => format!("\"k\":\"float\",\"n\":{}", esc(i.name_str())),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(def, args) => {
                let d = def.did();
                self.adt(d);
                let p = self.path(d);
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                // also const args (matrix dims)
                let c: Vec<String> = args.consts().map(|x| esc(&format!("{}", x))).collect();
                format!("\"k\":\"adt\",\"p\":{},\"a\":{},\"c\":{}", esc(&p), arr(a), arr(c))
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                format!("\"k\":\"ref\",\"t\":{},\"m\":{}", i, m.is_mut())
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                format!("\"k\":\"ptr\",\"t\":{},\"m\":{}", i, m.is_mut())
            }
            ty::Slice(inner) => {
                let i = self.ty(inner);
                format!("\"k\":\"slice\",\"t\":{}", i)
            }
            ty::Array(inner, n) => {
                let i = self.ty(inner);
                format!("\"k\":\"array\",\"t\":{},\"len\":{}", i, esc(&format!("{}", n)))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(a))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                format!("\"k\":\"closure\",\"p\":{},\"a\":{}", esc(&self.path(d)), arr(ups))
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"p\":{}", esc(&self.path(d.into()))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        let rc = if self.has_cell(t, 0) { ",\"rc\":true" } else { "" };
        self.tys[ix] = format!("{{\"s\":{},{}{}}}", text, s, rc);
        ix
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut proj = vec![];
        let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.index());
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = cur.ty.kind() {
                        owner = self.path(def.did());
                    }
                    if let ty::Adt(def, _) = cur.ty.kind() {
                        let vi = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !def.is_enum() || cur.variant_index.is_some() {
                            name = def.variant(vi).fields[f].name.to_string();
                        }
                    }
                    format!("[\"field\",{},{},{}]", f.index(), esc(&name), esc(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    format!("[\"cindex\",{},{},{}]", offset, from_end, min_length)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match n {
                        Some(n) => n.to_string(),
                        None => match cur.ty.kind() {
                            ty::Adt(def, _) => def.variant(v).name.to_string(),
                            _ => format!("{}", v.index()),
                        },
                    };
                    format!("[\"downcast\",{},{}]", v.index(), esc(&name))
                }
                _ => "[\"other\"]".to_string(),
            };
            proj.push(s);
            cur = cur.projection_ty(self.tcx, el);
        }
        let t = self.ty(cur.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.index(), arr(proj), t)
    }

    fn fnref(&mut self, body: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let env = body.typing_env(self.tcx);
        let mut s = format!("\"path\":{}", esc(&self.path(d)));
        let full = format!("{}<{}>", self.path(d), args.types().map(|x| self.tystr(x)).collect::<Vec<_>>().join(", "));
        let _ = write!(s, ",\"full\":{}", esc(&full));
        let tys: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        let _ = write!(s, ",\"targs\":{}", arr(tys));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        }
        let _ = write!(s, ",\"name\":{}", esc(self.tcx.item_name(d).as_str()));
        let kind = self.tcx.def_kind(d);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let eargs = self.tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, eargs) {
                let rd = inst.def_id();
                let _ = write!(
                    s,
                    ",\"res\":{},\"res_local\":{},\"res_krate\":{}",
                    esc(&self.path(rd)),
                    rd.is_local(),
                    esc(self.tcx.crate_name(rd.krate).as_str())
                );
            }
        } else if matches!(kind, DefKind::Ctor(..)) {
            let _ = write!(s, ",\"ctor\":true");
            let v = self.tcx.parent(d);
            let _ = write!(s, ",\"ctor_of\":{}", esc(&self.path(v)));
            let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args);
            let out = sig.skip_norm_wip().output().skip_binder();
            let ti = self.ty(out);
            let _ = write!(s, ",\"ctor_ty\":{},\"ctor_variant\":{}", ti, esc(self.tcx.item_name(v).as_str()));
        }
        format!("{{{}}}", s)
    }

    fn constant(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let env = body.typing_env(self.tcx);
        let mut out = format!("\"ty\":{}", ti);
        match *t.kind() {
            ty::FnDef(d, args) => {
                let f = self.fnref(body, d.into(), args.skip_binder());
                let _ = write!(out, ",\"c\":\"fn\",\"fn\":{}", f);
                return format!("{{{}}}", out);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(
                    out,
                    ",\"c\":\"promoted\",\"def\":{},\"ix\":{}",
                    esc(&self.path(u.def)),
                    p.index()
                );
                return format!("{{{}}}", out);
            }
            let _ = write!(out, ",\"const_path\":{}", esc(&self.path(u.def)));
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(ConstValue::ZeroSized) => {
                let _ = write!(out, ",\"c\":\"zst\"");
            }
            Ok(ConstValue::Scalar(interpret::Scalar::Int(i))) => {
                let bits = i.to_bits(i.size());
                let sz = i.size().bytes();
                let _ = write!(out, ",\"c\":\"scalar\",\"bits\":\"{}\",\"size\":{}", bits, sz);
            }
            Ok(v @ ConstValue::Slice { .. }) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    let _ = write!(out, ",\"c\":\"str\",\"v\":{}", esc(&String::from_utf8_lossy(b)));
                } else {
                    let _ = write!(out, ",\"c\":\"other\"");
                }
            }
            _ => {
                let _ = write!(out, ",\"c\":\"other\",\"dbg\":{}", esc(&format!("{}", c.const_)));
            }
        }
        format!("{{{}}}", out)
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(body, c)),
            #[allow(unreachable_patterns)]
            _ => "[\"rtcheck\"]".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(body, o), esc(&format!("{}", n)))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                format!("[\"ref\",\"{}\",{}]", m, self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "mut" } else { "shared" }, self.place(body, p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                let from = o.ty(&body.local_decls, self.tcx);
                let fi = self.ty(from);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.operand(body, o),
                    ti,
                    fi
                )
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(body, &ab.0),
                self.operand(body, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(body, a))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        format!(
                            "[\"adt\",{},{},{}]",
                            esc(&self.path(*d)),
                            v.index(),
                            esc(def.variant(*v).name.as_str())
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, arr(os))
            }
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn body(&mut self, name: &str, body: &Body<'tcx>, extra: &str) -> String {
        let locals: Vec<String> =
            body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p)));
            }
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in data.statements.iter() {
                let (_, ln) = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(body, &pr.0);
                        let r = self.rvalue(body, &pr.1);
                        st.push(format!("[\"assign\",{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(format!("[\"setdiscr\",{},{},{}]", p, variant_index.index(), ln));
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.index())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intrinsic\",{}]", esc(&format!("{:?}", i))))
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let (_, ln) = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, discr);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let di = self.ty(dt);
                    let tv: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.index()))
                        .collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        o,
                        arr(tv),
                        targets.otherwise().index(),
                        di
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    format!("[\"drop\",{},{}]", p, target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func);
                    let aa: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let d = self.place(body, destination);
                    let tg = match target {
                        Some(b) => b.index().to_string(),
                        None => "null".to_string(),
                    };
                    format!("[\"call\",{},{},{},{},{}]", f, arr(aa), d, tg, ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(body, cond);
                    let m = format!("{:?}", msg);
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, esc(&m), target.index(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                _ => "[\"other\"]".to_string(),
            };
            blocks.push(format!(
                "{{\"cleanup\":{},\"s\":{},\"t\":{},\"line\":{}}}",
                data.is_cleanup,
                arr(st),
                ts,
                ln
            ));
        }
        let (file, line) = self.line(body.span);
        format!(
            "{{\"name\":{},\"file\":{},\"line\":{},\"argc\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{}{}}}",
            esc(name),
            esc(&file),
            line,
            body.arg_count,
            arr(locals),
            arr(names),
            body.spread_arg.map(|l| l.index() as i64).unwrap_or(-1),
            arr(blocks),
            extra
        )
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump { tcx, tys: vec![], ty_ix: HashMap::new(), adts: HashMap::new() };
        let mut bodies = vec![];
        let mut consts = vec![];
        for ldid in tcx.mir_keys(()).iter() {
            let did = ldid.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let name = d.path(did);
                    consts.push(esc(&name));
                    if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                        let s = d.body(&name, tcx.mir_for_ctfe(*ldid), ",\"kind\":\"Const\"");
                        bodies.push(s);
                        for (ix, pb) in tcx.promoted_mir(did).iter_enumerated() {
                            let n = format!("{}::{{promoted#{}}}", name, ix.index());
                            let s = d.body(&n, pb, ",\"kind\":\"Promoted\"");
                            bodies.push(s);
                        }
                    }
                    continue;
                }
                _ => continue,
            }
            let name = d.path(did);
            let body = tcx.optimized_mir(did);
            let mut extra = format!(",\"kind\":{}", esc(&format!("{:?}", kind)));
            if kind != DefKind::Closure {
                let vis = tcx.visibility(did);
                let _ = write!(extra, ",\"pub\":{}", vis.is_public());
                let imp = tcx.impl_of_assoc(did);
                if let Some(imp) = imp {
                    if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                        let _ = write!(extra, ",\"impl_trait\":{}", esc(&d.path(tr)));
                    }
                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    let si = d.ty(st);
                    let _ = write!(extra, ",\"self_ty\":{}", si);
                }
                let _ = write!(extra, ",\"item\":{}", esc(tcx.item_name(did).as_str()));
            } else {
                let par = tcx.typeck_root_def_id(did);
                let _ = write!(extra, ",\"parent\":{}", esc(&d.path(par)));
                let up: Vec<String> = tcx
                    .closure_captures(*ldid)
                    .iter()
                    .map(|c| esc(&c.to_string(tcx)))
                    .collect();
                let _ = write!(extra, ",\"captures\":{}", arr(up));
            }
            let s = d.body(&name, body, &extra);
            bodies.push(s);
            for (ix, pb) in tcx.promoted_mir(did).iter_enumerated() {
                let n = format!("{}::{{promoted#{}}}", name, ix.index());
                let s = d.body(&n, pb, ",\"kind\":\"Promoted\"");
                bodies.push(s);
            }
        }
        let mut adts = vec![];
        let mut keys: Vec<DefId> = d.adts.keys().cloned().collect();
        keys.sort_by_key(|k| d.path(*k));
        for k in keys {
            adts.push(format!("{}:{}", esc(&d.path(k)), d.adts[&k]));
        }
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let ctys: Vec<String> = tcx.crate_types().iter().map(|c| format!("{:?}", c).to_lowercase()).collect();
        let text = format!(
            "{{\"crate\":{},\"types\":{},\"adts\":{{{}}},\"tys\":{},\"consts\":{},\"bodies\":{}}}\n",
            esc(&krate),
            esc(&ctys.join("_")),
            adts.join(","),
            arr(d.tys.clone()),
            arr(consts),
            arr(bodies)
        );
        let f = format!("{}/{}-{}.json", self.out, krate, ctys.join("_"));
        std::fs::write(&f, text).expect("mirdump: cannot write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn run(args: Vec<String>, cb: &mut (dyn Callbacks + Send)) {
    let code = rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, cb));
    if code != std::process::ExitCode::SUCCESS {
        std::process::exit(1);
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let has_crate = args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "___");
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if has_crate && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zalways-encode-mir=no".into());
        let mut cb = Cb { out };
        run(args, &mut cb);
    } else {
        run(args, &mut Plain);
    }
}
