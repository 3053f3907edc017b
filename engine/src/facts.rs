//! Facts about the crate under analysis, gathered while it is compiled.
use crate::interp::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::TyCtxt;
use std::fmt::Write;
use std::iter::Peekable;
use std::str::Chars;

fn show_val(v: &Val, o: &mut String) -> Result<(), ()> {
    match v {
        Val::Int(Int::C(c), t) => {
            let t = match t {
                Ity::Bool => "b".to_string(),
                Ity::Char => "c".to_string(),
                Ity::U(n) => format!("u{n}"),
                Ity::I(n) => format!("i{n}"),
                Ity::Usize => "z".into(),
                Ity::Isize => "s".into(),
            };
            let _ = write!(o, "I{c}:{t};");
        }
        Val::Sl(Sl { src: Src::Bytes(b), lo, hi }) => {
            let _ = write!(o, "S{},{},", lo.k, hi.k);
            for x in b.iter() {
                let _ = write!(o, "{x:02x}");
            }
            o.push(';');
        }
        Val::Sl(Sl { src: Src::Vals(b), .. }) => {
            let _ = write!(o, "V{};", b.len());
            for x in b.iter() {
                show_val(x, o)?;
            }
        }
        Val::Adt(n, f) => {
            let _ = write!(o, "A{n},{};", f.len());
            for x in f.iter() {
                show_val(x, o)?;
            }
        }
        Val::RefV(x) => {
            o.push('R');
            show_val(x, o)?;
        }
        Val::Opaque | Val::Undef => o.push('O'),
        _ => return Err(()),
    }
    Ok(())
}
pub fn parse_val(c: &mut Peekable<Chars>) -> Val {
    let until = |c: &mut Peekable<Chars>| -> String {
        let mut s = String::new();
        for x in c.by_ref() {
            if x == ';' {
                break;
            }
            s.push(x);
        }
        s
    };
    match c.next() {
        Some('I') => {
            let s = until(c);
            let (v, t) = s.split_once(':').unwrap();
            let ty = match t.split_at(1) {
                ("b", _) => Ity::Bool,
                ("c", _) => Ity::Char,
                ("u", n) => Ity::U(n.parse().unwrap()),
                ("i", n) => Ity::I(n.parse().unwrap()),
                ("z", _) => Ity::Usize,
                _ => Ity::Isize,
            };
            Val::c(v.parse().unwrap(), ty)
        }
        Some('S') => {
            let s = until(c);
            let mut p = s.splitn(3, ',');
            let lo: i64 = p.next().unwrap().parse().unwrap();
            let hi: i64 = p.next().unwrap().parse().unwrap();
            let h = p.next().unwrap();
            let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            let mut s = Sl::bytes(b);
            s.lo = Pe::c(lo);
            s.hi = Pe::c(hi);
            Val::Sl(s)
        }
        Some('V') => {
            let n: usize = until(c).parse().unwrap();
            Val::Sl(Sl::vals((0..n).map(|_| parse_val(c)).collect()))
        }
        Some('A') => {
            let s = until(c);
            let (v, n) = s.split_once(',').unwrap();
            let n: usize = n.parse().unwrap();
            Val::adt(v.parse().unwrap(), (0..n).map(|_| parse_val(c)).collect())
        }
        Some('R') => Val::RefV(std::rc::Rc::new(parse_val(c))),
        _ => Val::Opaque,
    }
}

pub fn dump(tcx: TyCtxt<'_>) {
    let Ok(out) = std::env::var("LT_OUT") else { return };
    let g = crate::run::new_global(tcx);
    crate::auto::set_alpha(vec![crate::auto::TrackAlpha { bytes: vec![b'a'] }]);
    let mut it = Interp::new(&g, vec![]);
    let mut s = String::new();
    for d in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Static { .. } = tcx.def_kind(d) {
            let Ok(a) = tcx.eval_static_initializer(d) else { continue };
            let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ty = tcx.erase_and_anonymize_regions(ty);
            if let Ok(v) = it.read_alloc(a.inner(), rustc_abi::Size::ZERO, ty) {
                let mut o = String::new();
                if show_val(&v, &mut o).is_ok() {
                    let _ = writeln!(s, "{}\t{o}", g.name_of(d.to_def_id()));
                }
            }
        }
    }
    let _ = std::fs::write(format!("{out}/statics.txt"), s);
}
