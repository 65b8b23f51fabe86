//! A rustc wrapper.  Crate `sumtree_orderbook` (and the parts of core it instantiates) is compiled
//! with every operation on 64- and 128-bit integers routed through `symrt::hook`, so raw integers in
//! contract code may be solver terms; every function of the contract reports that it was entered.
//! All other crates go to plain rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::sync::OnceLock;

const TARGET: &str = "sumtree_orderbook";
/// libraries whose own integer arithmetic must see handles too
const ALSO: [&str; 2] = ["cosmwasm_std", "cw_storage_plus"];
const CORE_MODULES: [&str; 13] = ["cmp", "num", "ops", "iter", "convert", "option", "result", "clone", "range", "tuple", "array", "slice", "mem"];

static LOCAL: OnceLock<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Body<'tcx>> = OnceLock::new();
static EXT: OnceLock<for<'tcx> fn(TyCtxt<'tcx>, DefId) -> &'tcx Body<'tcx>> = OnceLock::new();
static HOOKS: OnceLock<HashMap<String, DefId>> = OnceLock::new();

fn hooks(tcx: TyCtxt<'_>) -> &'static HashMap<String, DefId> {
    HOOKS.get_or_init(|| {
        let c = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "symrt").expect("symrt is not a dependency");
        let m = tcx
            .module_children(c.as_def_id())
            .iter()
            .find(|x| x.ident.as_str() == "hook")
            .expect("symrt::hook")
            .res
            .def_id();
        tcx.module_children(m).iter().filter_map(|x| x.res.opt_def_id().map(|d| (x.ident.as_str().to_string(), d))).collect()
    })
}
fn hook(tcx: TyCtxt<'_>, n: &str) -> DefId {
    *hooks(tcx).get(n).unwrap_or_else(|| panic!("no hook {n}"))
}

fn wide(t: Ty<'_>) -> Option<&'static str> {
    match t.kind() {
        ty::Uint(ty::UintTy::U128) => Some("u128"),
        ty::Int(ty::IntTy::I128) => Some("i128"),
        ty::Uint(ty::UintTy::U64) => Some("u64"),
        ty::Int(ty::IntTy::I64) => Some("i64"),
        _ => None,
    }
}

fn local<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx Body<'tcx> {
    let b = LOCAL.get().unwrap()(tcx, d);
    let enter = (tcx.crate_name(LOCAL_CRATE).as_str() == TARGET && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)).then(|| tcx.def_path_str(d.to_def_id()));
    tcx.arena.alloc(rewrite(tcx, b.clone(), enter))
}
fn ext<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> &'tcx Body<'tcx> {
    let b = EXT.get().unwrap()(tcx, d);
    let krate = tcx.crate_name(d.krate);
    let take = match krate.as_str() {
        "core" => {
            let p = tcx.def_path(d);
            p.data.first().and_then(|x| x.data.get_opt_name()).is_some_and(|m| CORE_MODULES.contains(&m.as_str()))
        }
        "cw_storage_plus" | "cosmwasm_std" => true,
        _ => false,
    };
    if !take {
        return b;
    }
    tcx.arena.alloc(rewrite(tcx, b.clone(), None))
}

struct Rw<'tcx> {
    tcx: TyCtxt<'tcx>,
    b: Body<'tcx>,
}

/// what to do with one assignment
enum Plan<'tcx> {
    /// the second operand goes in as u32
    Shift(String, Operand<'tcx>, Operand<'tcx>),
    Call(String, Vec<Operand<'tcx>>),
    /// make the operand concrete, then do the original thing with it
    Guard(String, Operand<'tcx>, Box<dyn FnOnce(Operand<'tcx>) -> Rvalue<'tcx> + 'tcx>),
}

impl<'tcx> Rw<'tcx> {
    fn ty(&self, o: &Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&self.b.local_decls, self.tcx)
    }
    fn w(&self, o: &Operand<'tcx>) -> Option<&'static str> {
        wide(self.ty(o))
    }
    fn copy(o: &Operand<'tcx>) -> Operand<'tcx> {
        match o {
            Operand::Move(p) => Operand::Copy(*p),
            x => x.clone(),
        }
    }
    fn plan(&self, r: &Rvalue<'tcx>) -> Option<Plan<'tcx>> {
        use BinOp::*;
        match r {
            Rvalue::BinaryOp(op, ab) => {
                let (a, c) = (&ab.0, &ab.1);
                let w = self.w(a)?;
                let n = match op {
                    Add | AddUnchecked => "add",
                    Sub | SubUnchecked => "sub",
                    Mul | MulUnchecked => "mul",
                    AddWithOverflow => "add_o",
                    SubWithOverflow => "sub_o",
                    MulWithOverflow => "mul_o",
                    Div => "div",
                    Rem => "rem",
                    BitAnd => "and",
                    BitOr => "or",
                    BitXor => "xor",
                    Eq => "eq",
                    Ne => "ne",
                    Lt => "lt",
                    Le => "le",
                    Gt => "gt",
                    Ge => "ge",
                    Cmp => "cmp",
                    Shl | ShlUnchecked | Shr | ShrUnchecked => {
                        let op = *op;
                        let c = Self::copy(c);
                        if self.w(&c).is_some() {
                            return Some(Plan::Guard(format!("{w}_conc"), Self::copy(a), Box::new(move |x| Rvalue::BinaryOp(op, Box::new((x, c))))));
                        }
                        let n = if matches!(op, Shl | ShlUnchecked) { "shl" } else { "shr" };
                        return Some(Plan::Shift(format!("{w}_{n}"), Self::copy(a), c));
                    }
                    Offset => return None,
                };
                Some(Plan::Call(format!("{w}_{n}"), vec![Self::copy(a), Self::copy(c)]))
            }
            Rvalue::UnaryOp(op, a) => {
                let w = self.w(a)?;
                let n = match op {
                    UnOp::Neg => "neg",
                    UnOp::Not => "not",
                    _ => return None,
                };
                Some(Plan::Call(format!("{w}_{n}"), vec![Self::copy(a)]))
            }
            Rvalue::Cast(k, a, t) => {
                let w = self.w(a)?;
                let (k, t) = (*k, *t);
                match k {
                    CastKind::IntToInt => {
                        if let Some(v) = wide(t) {
                            if v == w {
                                return None;
                            }
                            return Some(Plan::Call(format!("{w}_to_{v}"), vec![Self::copy(a)]));
                        }
                        Some(Plan::Guard(format!("{w}_conc"), Self::copy(a), Box::new(move |x| Rvalue::Cast(k, x, t))))
                    }
                    CastKind::Transmute if wide(t).is_some() => {
                        // between signed and unsigned of one size
                        let v = wide(t).unwrap();
                        if v == w {
                            return None;
                        }
                        Some(Plan::Call(format!("{w}_to_{v}"), vec![Self::copy(a)]))
                    }
                    _ => Some(Plan::Guard(format!("{w}_conc"), Self::copy(a), Box::new(move |x| Rvalue::Cast(k, x, t)))),
                }
            }
            _ => None,
        }
    }
    fn call(&self, name: &str, args: Vec<Operand<'tcx>>, dest: Place<'tcx>, target: BasicBlock, span: Span) -> TerminatorKind<'tcx> {
        TerminatorKind::Call {
            func: Operand::function_handle(self.tcx, hook(self.tcx, name), &[], span),
            args: args.into_iter().map(|node| rustc_span::Spanned { node, span }).collect(),
            destination: dest,
            target: Some(target),
            unwind: UnwindAction::Continue,
            call_source: CallSource::Misc,
            fn_span: span,
        }
    }
    fn result(&self, d: DefId) -> Ty<'tcx> {
        self.tcx.fn_sig(d).instantiate_identity().skip_binder().output()
    }
    fn temp(&mut self, t: Ty<'tcx>, span: Span) -> Place<'tcx> {
        Place::from(self.b.local_decls.push(LocalDecl::new(t, span)))
    }
    fn block(&mut self, statements: Vec<Statement<'tcx>>, terminator: Option<Terminator<'tcx>>) -> BasicBlock {
        self.b.basic_blocks_mut().push(BasicBlockData::new_stmts(statements, terminator, false))
    }
    fn run(&mut self) {
        let mut todo: Vec<BasicBlock> = self.b.basic_blocks.indices().filter(|i| !self.b.basic_blocks[*i].is_cleanup).collect();
        while let Some(bb) = todo.pop() {
            let n = self.b.basic_blocks[bb].statements.len();
            let mut hit = None;
            for i in 0..n {
                if let StatementKind::Assign(pr) = &self.b.basic_blocks[bb].statements[i].kind {
                    if let Some(p) = self.plan(&pr.1) {
                        hit = Some((i, pr.0, p));
                        break;
                    }
                }
            }
            if let Some((i, dest, plan)) = hit {
                let blk = &mut self.b.basic_blocks_mut()[bb];
                let mut tail = blk.statements.split_off(i + 1);
                let si = blk.statements.pop().unwrap().source_info;
                let term = blk.terminator.take();
                let (name, args, post): (String, Vec<Operand<'tcx>>, Option<Box<dyn FnOnce(Operand<'tcx>) -> Rvalue<'tcx> + 'tcx>>) = match plan {
                    Plan::Call(n, a) => (n, a, None),
                    Plan::Shift(n, a, c) => {
                        let u = self.tcx.types.u32;
                        let t = self.temp(u, si.span);
                        let st = Statement::new(si, StatementKind::Assign(Box::new((t, Rvalue::Cast(CastKind::IntToInt, c, u)))));
                        self.b.basic_blocks_mut()[bb].statements.push(st);
                        (n, vec![a, Operand::Copy(t)], None)
                    }
                    Plan::Guard(n, a, f) => (n, vec![a], Some(f)),
                };
                let rt = self.result(hook(self.tcx, &name));
                let tmp = self.temp(rt, si.span);
                // the guarded operation itself must not be planned again: it goes in a block of its own
                let next = match post {
                    None => {
                        tail.insert(0, Statement::new(si, StatementKind::Assign(Box::new((dest, Rvalue::Use(Operand::Move(tmp), WithRetag::Yes))))));
                        let next = self.block(tail, term);
                        todo.push(next);
                        next
                    }
                    Some(f) => {
                        let rest = self.block(tail, term);
                        todo.push(rest);
                        let st = Statement::new(si, StatementKind::Assign(Box::new((dest, f(Operand::Copy(tmp))))));
                        self.block(vec![st], Some(Terminator { source_info: si, kind: TerminatorKind::Goto { target: rest, loop_hint_attrs: Default::default() } }))
                    }
                };
                let k = self.call(&name, args, tmp, next, si.span);
                self.b.basic_blocks_mut()[bb].terminator = Some(Terminator { source_info: si, kind: k });
                continue;
            }
            let t = self.b.basic_blocks[bb].terminator().clone();
            match &t.kind {
                TerminatorKind::SwitchInt { discr, targets } => {
                    let Some(w) = self.w(discr) else { continue };
                    let ty = self.ty(discr);
                    let d = Self::copy(discr);
                    let mut els = targets.otherwise();
                    let arms: Vec<_> = targets.iter().collect();
                    let span = t.source_info.span;
                    for (k, (v, to)) in arms.iter().enumerate().rev() {
                        let tmp = self.temp(self.tcx.types.bool, span);
                        let sw = self.block(vec![], Some(Terminator { source_info: t.source_info, kind: TerminatorKind::if_(Operand::Copy(tmp), *to, els) }));
                        let size = rustc_abi_size(w);
                        let c = Operand::const_from_scalar(self.tcx, ty, interpret::Scalar::from_uint(*v, size), span);
                        let call = self.call(&format!("{w}_eq"), vec![d.clone(), c], tmp, sw, span);
                        let term = Terminator { source_info: t.source_info, kind: call };
                        if k == 0 {
                            self.b.basic_blocks_mut()[bb].terminator = Some(term);
                        } else {
                            els = self.block(vec![], Some(term));
                        }
                    }
                }
                TerminatorKind::Call { func, args, destination, target: Some(target), .. } => {
                    let Some((d, ga)) = func.const_fn_def() else { continue };
                    let Some(i) = self.tcx.intrinsic(d) else { continue };
                    if matches!(i.name.as_str(), "raw_eq" | "compare_bytes") {
                        let k = TerminatorKind::Call {
                            func: Operand::function_handle(self.tcx, hook(self.tcx, i.name.as_str()), ga, t.source_info.span),
                            args: args.clone(),
                            destination: *destination,
                            target: Some(*target),
                            unwind: UnwindAction::Continue,
                            call_source: CallSource::Misc,
                            fn_span: t.source_info.span,
                        };
                        self.b.basic_blocks_mut()[bb].terminator = Some(Terminator { source_info: t.source_info, kind: k });
                        continue;
                    }
                    let Some(w) = ga.types().next().and_then(wide) else { continue };
                    let span = t.source_info.span;
                    let ops: Vec<_> = args.iter().map(|a| Self::copy(&a.node)).collect();
                    let two = match i.name.as_str() {
                        "saturating_add" => Some("sat_add"),
                        "saturating_sub" => Some("sat_sub"),
                        "wrapping_add" => Some("add"),
                        "wrapping_sub" => Some("sub"),
                        "wrapping_mul" => Some("mul"),
                        "exact_div" | "unchecked_div" => Some("div"),
                        "unchecked_rem" => Some("rem"),
                        "unchecked_add" => Some("add"),
                        "unchecked_sub" => Some("sub"),
                        "unchecked_mul" => Some("mul"),
                        "integer_min" => Some("min"),
                        "integer_max" => Some("max"),
                        "disjoint_bitor" => Some("or"),
                        "add_with_overflow" => Some("add_o"),
                        "sub_with_overflow" => Some("sub_o"),
                        "mul_with_overflow" => Some("mul_o"),
                        "three_way_compare" => Some("cmp"),
                        _ => None,
                    };
                    if let Some(n) = two {
                        let k = self.call(&format!("{w}_{n}"), ops, *destination, *target, span);
                        self.b.basic_blocks_mut()[bb].terminator = Some(Terminator { source_info: t.source_info, kind: k });
                        continue;
                    }
                    // any other intrinsic sees concrete numbers only, unless it just passes them on
                    if matches!(i.name.as_str(), "black_box" | "select_unpredictable" | "is_val_statically_known" | "forget" | "transmute" | "transmute_unchecked" | "write_via_move" | "volatile_store" | "unaligned_volatile_store")
                        || !args.iter().any(|a| self.w(&a.node).is_some())
                    {
                        continue;
                    }
                    let mut new = args.clone();
                    let mut cur = bb;
                    let mut calls = vec![];
                    for a in new.iter_mut() {
                        if let Some(w) = self.w(&a.node) {
                            let tmp = self.temp(self.ty(&a.node), span);
                            calls.push((format!("{w}_conc"), Self::copy(&a.node), tmp));
                            a.node = Operand::Copy(tmp);
                        }
                    }
                    let mut last = t.clone();
                    if let TerminatorKind::Call { args, .. } = &mut last.kind {
                        *args = new;
                    }
                    let fin = self.block(vec![], Some(last));
                    let n = calls.len();
                    for (j, (name, a, tmp)) in calls.into_iter().enumerate() {
                        let next = if j + 1 == n { fin } else { self.block(vec![], None) };
                        let k = self.call(&name, vec![a], tmp, next, span);
                        self.b.basic_blocks_mut()[cur].terminator = Some(Terminator { source_info: t.source_info, kind: k });
                        cur = next;
                    }
                }
                _ => {}
            }
        }
    }
    fn enter(&mut self, name: &str) {
        let span = self.b.span;
        let si = SourceInfo::outermost(span);
        let id = register(name);
        let first = {
            let blk = &mut self.b.basic_blocks_mut()[START_BLOCK];
            let st = std::mem::take(&mut blk.statements);
            let t = blk.terminator.take();
            self.block(st, t)
        };
        let unit = self.temp(self.tcx.types.unit, span);
        let c = Operand::const_from_scalar(self.tcx, self.tcx.types.u32, interpret::Scalar::from_u32(id), span);
        let k = self.call("enter", vec![c], unit, first, span);
        self.b.basic_blocks_mut()[START_BLOCK].terminator = Some(Terminator { source_info: si, kind: k });
    }
}
fn rustc_abi_size(w: &str) -> rustc_abi::Size {
    rustc_abi::Size::from_bits(if w.ends_with("128") { 128 } else { 64 })
}
extern crate rustc_abi;

/// functions are reported by number; the names go to a file beside the build
fn register(name: &str) -> u32 {
    use std::io::Write;
    static L: std::sync::Mutex<u32> = std::sync::Mutex::new(0);
    let mut n = L.lock().unwrap();
    let p = std::env::var("MIRPASS_NAMES").unwrap_or_else(|_| "/dev/null".into());
    let mut f = std::fs::OpenOptions::new().create(true).append(*n > 0).write(true).truncate(*n == 0).open(p).expect("MIRPASS_NAMES");
    writeln!(f, "{name}").unwrap();
    *n += 1;
    *n - 1
}

fn rewrite<'tcx>(tcx: TyCtxt<'tcx>, b: Body<'tcx>, enter: Option<String>) -> Body<'tcx> {
    let mut r = Rw { tcx, b };
    r.run();
    if let Some(n) = enter {
        r.enter(&n);
    }
    r.b
}

struct Cb;
impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(1);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.unstable_opts.share_generics = Some(false);
        c.override_queries = Some(|_s, p| {
            LOCAL.get_or_init(|| p.queries.optimized_mir);
            EXT.get_or_init(|| p.extern_queries.optimized_mir);
            p.queries.optimized_mir = local;
            p.extern_queries.optimized_mir = ext;
        });
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ours = a.windows(2).any(|w| w[0] == "--crate-name" && (w[1] == TARGET || ALSO.contains(&w[1].as_str())));
    if !ours {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&a[1]).args(&a[2..]).exec();
        panic!("{e}");
    }
    rustc_driver_impl::compiler_entrypoint(&a[1..], &mut Cb);
}
