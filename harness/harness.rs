// generated by tools/mkharness.py
#![allow(improper_ctypes_definitions, unused_must_use, clippy::all)]
use aga8::composition::{Composition, CompositionError};
use aga8::detail::Detail;
use aga8::ffi::Properties;
use aga8::gerg2008::Gerg2008;
use aga8::DensityError;
use core::mem::{align_of, offset_of, size_of};
fn ce(e: CompositionError) -> i32 { match e { CompositionError::Ok => 10, CompositionError::Empty => 1, CompositionError::BadSum => 2 } }
fn de(e: DensityError) -> i32 { match e { DensityError::Ok => 10, DensityError::IterationFail => 1, DensityError::PressureTooLow => 2 } }
#[no_mangle] pub unsafe extern "C" fn vh_d_new(o: *mut Detail) { o.write(Detail::new()) }
#[no_mangle] pub unsafe extern "C" fn vh_d_drop(o: *mut Detail) { core::ptr::drop_in_place(o) }
#[no_mangle] pub unsafe extern "C" fn vh_d_pressure(o: *mut Detail) -> f64 { (*o).pressure() }
#[no_mangle] pub unsafe extern "C" fn vh_d_set(o: *mut Detail, c: *const Composition) -> i32 { match (*o).set_composition(&*c) { Ok(()) => 0, Err(e) => ce(e) } }
#[no_mangle] pub unsafe extern "C" fn vh_d_size() -> usize { size_of::<Detail>() }
#[no_mangle] pub unsafe extern "C" fn vh_d_align() -> usize { align_of::<Detail>() }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_t() -> usize { offset_of!(Detail, t) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_p() -> usize { offset_of!(Detail, p) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_d() -> usize { offset_of!(Detail, d) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_z() -> usize { offset_of!(Detail, z) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_mm() -> usize { offset_of!(Detail, mm) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_dp_dd() -> usize { offset_of!(Detail, dp_dd) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_d2p_dd2() -> usize { offset_of!(Detail, d2p_dd2) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_d2p_dtd() -> usize { offset_of!(Detail, d2p_dtd) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_dp_dt() -> usize { offset_of!(Detail, dp_dt) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_u() -> usize { offset_of!(Detail, u) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_h() -> usize { offset_of!(Detail, h) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_s() -> usize { offset_of!(Detail, s) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_cv() -> usize { offset_of!(Detail, cv) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_cp() -> usize { offset_of!(Detail, cp) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_w() -> usize { offset_of!(Detail, w) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_g() -> usize { offset_of!(Detail, g) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_jt() -> usize { offset_of!(Detail, jt) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_kappa() -> usize { offset_of!(Detail, kappa) }
#[no_mangle] pub unsafe extern "C" fn vh_d_off_x() -> usize { offset_of!(Detail, x) }
#[no_mangle] pub unsafe extern "C" fn vh_g_new(o: *mut Gerg2008) { o.write(Gerg2008::new()) }
#[no_mangle] pub unsafe extern "C" fn vh_g_drop(o: *mut Gerg2008) { core::ptr::drop_in_place(o) }
#[no_mangle] pub unsafe extern "C" fn vh_g_pressure(o: *mut Gerg2008) -> f64 { (*o).pressure() }
#[no_mangle] pub unsafe extern "C" fn vh_g_set(o: *mut Gerg2008, c: *const Composition) -> i32 { match (*o).set_composition(&*c) { Ok(()) => 0, Err(e) => ce(e) } }
#[no_mangle] pub unsafe extern "C" fn vh_g_size() -> usize { size_of::<Gerg2008>() }
#[no_mangle] pub unsafe extern "C" fn vh_g_align() -> usize { align_of::<Gerg2008>() }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_t() -> usize { offset_of!(Gerg2008, t) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_p() -> usize { offset_of!(Gerg2008, p) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_d() -> usize { offset_of!(Gerg2008, d) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_z() -> usize { offset_of!(Gerg2008, z) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_mm() -> usize { offset_of!(Gerg2008, mm) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_dp_dd() -> usize { offset_of!(Gerg2008, dp_dd) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_d2p_dd2() -> usize { offset_of!(Gerg2008, d2p_dd2) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_d2p_dtd() -> usize { offset_of!(Gerg2008, d2p_dtd) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_dp_dt() -> usize { offset_of!(Gerg2008, dp_dt) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_u() -> usize { offset_of!(Gerg2008, u) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_h() -> usize { offset_of!(Gerg2008, h) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_s() -> usize { offset_of!(Gerg2008, s) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_cv() -> usize { offset_of!(Gerg2008, cv) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_cp() -> usize { offset_of!(Gerg2008, cp) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_w() -> usize { offset_of!(Gerg2008, w) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_g() -> usize { offset_of!(Gerg2008, g) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_jt() -> usize { offset_of!(Gerg2008, jt) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_kappa() -> usize { offset_of!(Gerg2008, kappa) }
#[no_mangle] pub unsafe extern "C" fn vh_g_off_x() -> usize { offset_of!(Gerg2008, x) }
#[no_mangle] pub unsafe extern "C" fn vh_d_density(o: *mut Detail, _f: i32) -> i32 { match (*o).density() { Ok(()) => 0, Err(e) => de(e) } }
#[no_mangle] pub unsafe extern "C" fn vh_g_density(o: *mut Gerg2008, f: i32) -> i32 { match (*o).density(f) { Ok(()) => 0, Err(e) => de(e) } }
#[no_mangle] pub unsafe extern "C" fn vh_d_properties(o: *mut Detail) -> f64 { (*o).properties(); (*o).p }
#[no_mangle] pub unsafe extern "C" fn vh_g_properties(o: *mut Gerg2008) -> f64 { (*o).properties() }
#[no_mangle] pub unsafe extern "C" fn vh_d_molar_mass(o: *mut Detail) -> f64 { (*o).molar_mass() }
#[no_mangle] pub unsafe extern "C" fn vh_g_molar_mass(o: *mut Gerg2008) -> f64 { let _ = (*o).molar_mass(); (*o).mm }
#[no_mangle] pub unsafe extern "C" fn vh_c_sum(c: *const Composition) -> f64 { (*c).sum() }
#[no_mangle] pub unsafe extern "C" fn vh_c_check(c: *const Composition) -> i32 { match (*c).check() { Ok(()) => 0, Err(e) => ce(e) } }
#[no_mangle] pub unsafe extern "C" fn vh_c_normalize(c: *mut Composition) -> i32 { match (*c).normalize() { Ok(()) => 0, Err(e) => ce(e) } }
#[no_mangle] pub unsafe extern "C" fn vh_c_size() -> usize { size_of::<Composition>() }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_methane() -> usize { offset_of!(Composition, methane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_nitrogen() -> usize { offset_of!(Composition, nitrogen) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_carbon_dioxide() -> usize { offset_of!(Composition, carbon_dioxide) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_ethane() -> usize { offset_of!(Composition, ethane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_propane() -> usize { offset_of!(Composition, propane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_isobutane() -> usize { offset_of!(Composition, isobutane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_n_butane() -> usize { offset_of!(Composition, n_butane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_isopentane() -> usize { offset_of!(Composition, isopentane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_n_pentane() -> usize { offset_of!(Composition, n_pentane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_hexane() -> usize { offset_of!(Composition, hexane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_heptane() -> usize { offset_of!(Composition, heptane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_octane() -> usize { offset_of!(Composition, octane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_nonane() -> usize { offset_of!(Composition, nonane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_decane() -> usize { offset_of!(Composition, decane) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_hydrogen() -> usize { offset_of!(Composition, hydrogen) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_oxygen() -> usize { offset_of!(Composition, oxygen) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_carbon_monoxide() -> usize { offset_of!(Composition, carbon_monoxide) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_water() -> usize { offset_of!(Composition, water) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_hydrogen_sulfide() -> usize { offset_of!(Composition, hydrogen_sulfide) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_helium() -> usize { offset_of!(Composition, helium) }
#[no_mangle] pub unsafe extern "C" fn vh_c_off_argon() -> usize { offset_of!(Composition, argon) }
#[no_mangle] pub unsafe extern "C" fn vh_p_size() -> usize { size_of::<Properties>() }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_d() -> usize { offset_of!(Properties, d) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_mm() -> usize { offset_of!(Properties, mm) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_z() -> usize { offset_of!(Properties, z) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_dp_dd() -> usize { offset_of!(Properties, dp_dd) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_d2p_dd2() -> usize { offset_of!(Properties, d2p_dd2) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_dp_dt() -> usize { offset_of!(Properties, dp_dt) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_u() -> usize { offset_of!(Properties, u) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_h() -> usize { offset_of!(Properties, h) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_s() -> usize { offset_of!(Properties, s) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_cv() -> usize { offset_of!(Properties, cv) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_cp() -> usize { offset_of!(Properties, cp) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_w() -> usize { offset_of!(Properties, w) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_g() -> usize { offset_of!(Properties, g) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_jt() -> usize { offset_of!(Properties, jt) }
#[no_mangle] pub unsafe extern "C" fn vh_p_off_kappa() -> usize { offset_of!(Properties, kappa) }
#[no_mangle] pub unsafe extern "C" fn vh_ce_Ok() -> i32 { CompositionError::Ok as i32 }
#[no_mangle] pub unsafe extern "C" fn vh_ce_Empty() -> i32 { CompositionError::Empty as i32 }
#[no_mangle] pub unsafe extern "C" fn vh_ce_BadSum() -> i32 { CompositionError::BadSum as i32 }
#[no_mangle] pub unsafe extern "C" fn vh_de_Ok() -> i32 { DensityError::Ok as i32 }
#[no_mangle] pub unsafe extern "C" fn vh_de_IterationFail() -> i32 { DensityError::IterationFail as i32 }
#[no_mangle] pub unsafe extern "C" fn vh_de_PressureTooLow() -> i32 { DensityError::PressureTooLow as i32 }
#[no_mangle] pub unsafe extern "C" fn vh_ce_size() -> usize { size_of::<CompositionError>() }
#[no_mangle] pub unsafe extern "C" fn vh_de_size() -> usize { size_of::<DensityError>() }
#[used] static KEEP: [unsafe extern "C" fn(); 0] = [];
