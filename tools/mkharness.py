#!/usr/bin/env python3
"""Writes /verif/harness/harness.rs: C-callable wrappers of the crate's public API (no logic of its own)."""
COMP = ("methane nitrogen carbon_dioxide ethane propane isobutane n_butane isopentane n_pentane hexane heptane octane "
        "nonane decane hydrogen oxygen carbon_monoxide water hydrogen_sulfide helium argon").split()
PUB = "t p d z mm dp_dd d2p_dd2 d2p_dtd dp_dt u h s cv cp w g jt kappa x".split()
PROPS = "d mm z dp_dd d2p_dd2 dp_dt u h s cv cp w g jt kappa".split()
o = []
w = o.append
w("// generated by tools/mkharness.py")
w("#![allow(improper_ctypes_definitions, unused_must_use, clippy::all)]")
w("use aga8::composition::{Composition, CompositionError};")
w("use aga8::detail::Detail;")
w("use aga8::ffi::Properties;")
w("use aga8::gerg2008::Gerg2008;")
w("use aga8::DensityError;")
w("use core::mem::{align_of, offset_of, size_of};")
w("fn ce(e: CompositionError) -> i32 { match e { CompositionError::Ok => 10, CompositionError::Empty => 1, CompositionError::BadSum => 2 } }")
w("fn de(e: DensityError) -> i32 { match e { DensityError::Ok => 10, DensityError::IterationFail => 1, DensityError::PressureTooLow => 2 } }")
F = '#[no_mangle] pub unsafe extern "C" fn '
for m, T in (("d", "Detail"), ("g", "Gerg2008")):
    w(F + "vh_%s_new(o: *mut %s) { o.write(%s::new()) }" % (m, T, T))
    w(F + "vh_%s_drop(o: *mut %s) { core::ptr::drop_in_place(o) }" % (m, T))
    w(F + "vh_%s_pressure(o: *mut %s) -> f64 { (*o).pressure() }" % (m, T))
    w(F + "vh_%s_set(o: *mut %s, c: *const Composition) -> i32 { match (*o).set_composition(&*c) { Ok(()) => 0, Err(e) => ce(e) } }" % (m, T))
    w(F + "vh_%s_size() -> usize { size_of::<%s>() }" % (m, T))
    w(F + "vh_%s_align() -> usize { align_of::<%s>() }" % (m, T))
    for f in PUB:
        w(F + "vh_%s_off_%s() -> usize { offset_of!(%s, %s) }" % (m, f, T, f))
w(F + "vh_d_density(o: *mut Detail, _f: i32) -> i32 { match (*o).density() { Ok(()) => 0, Err(e) => de(e) } }")
w(F + "vh_g_density(o: *mut Gerg2008, f: i32) -> i32 { match (*o).density(f) { Ok(()) => 0, Err(e) => de(e) } }")
w(F + "vh_d_properties(o: *mut Detail) -> f64 { (*o).properties(); (*o).p }")
w(F + "vh_g_properties(o: *mut Gerg2008) -> f64 { (*o).properties() }")
w(F + "vh_d_molar_mass(o: *mut Detail) -> f64 { (*o).molar_mass() }")
w(F + "vh_g_molar_mass(o: *mut Gerg2008) -> f64 { let _ = (*o).molar_mass(); (*o).mm }")
w(F + "vh_c_sum(c: *const Composition) -> f64 { (*c).sum() }")
w(F + "vh_c_check(c: *const Composition) -> i32 { match (*c).check() { Ok(()) => 0, Err(e) => ce(e) } }")
w(F + "vh_c_normalize(c: *mut Composition) -> i32 { match (*c).normalize() { Ok(()) => 0, Err(e) => ce(e) } }")
w(F + "vh_c_size() -> usize { size_of::<Composition>() }")
for f in COMP:
    w(F + "vh_c_off_%s() -> usize { offset_of!(Composition, %s) }" % (f, f))
w(F + "vh_p_size() -> usize { size_of::<Properties>() }")
for f in PROPS:
    w(F + "vh_p_off_%s() -> usize { offset_of!(Properties, %s) }" % (f, f))
for e in ("Ok", "Empty", "BadSum"):
    w(F + "vh_ce_%s() -> i32 { CompositionError::%s as i32 }" % (e, e))
for e in ("Ok", "IterationFail", "PressureTooLow"):
    w(F + "vh_de_%s() -> i32 { DensityError::%s as i32 }" % (e, e))
w(F + "vh_ce_size() -> usize { size_of::<CompositionError>() }")
w(F + "vh_de_size() -> usize { size_of::<DensityError>() }")
# keep the C interface in the native library
w("#[used] static KEEP: [unsafe extern \"C\" fn(); 0] = [];")
open("/verif/harness/harness.rs", "w").write("\n".join(o) + "\n")
