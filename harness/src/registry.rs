// @generated by tools/gen_registry.py
#![allow(improper_ctypes)]
use crate::params::P;
use crate::reg::{Entry, Obj};
extern "C" {
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_equilibrium_distribution(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_force(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_distribution(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_force(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_distribution(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_force(a0:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_force(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_force(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_force(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_equilibrium_distribution(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_force(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_distribution(a0:u8,a1:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(a0:u8,a1:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_force(a0:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_distribution(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_force(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64,a6:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:f64,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_equilibrium_distribution(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_equilibrium_radial_distribution(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_force(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_distribution(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(a0:f64,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_force(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(a0:f64,a1:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64,a5:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
  fn physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(a0:u8,a1:f64,a2:f64,a3:f64,a4:f64)->f64;
}
pub static ENTRIES: &[Entry] = &[
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.force(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/alternative/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.end_to_end_length(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_alternative_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"efjc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_efjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::efjc::EFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"equilibrium_distribution",free_args:&["nl","ll","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::equilibrium_distribution(&p.nl,&p.ll,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).equilibrium_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.equilibrium_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_equilibrium_distribution(p.nl,p.ll,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.equilibrium_distribution(&p.xi))},
Entry{module:"fjc/thermodynamics/isometric",func:"equilibrium_radial_distribution",free_args:&["nl","ll","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::equilibrium_radial_distribution(&p.nl,&p.ll,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).equilibrium_radial_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.equilibrium_radial_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_equilibrium_radial_distribution(p.nl,p.ll,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.equilibrium_radial_distribution(&p.xi))},
Entry{module:"fjc/thermodynamics/isometric",func:"force",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::force(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_force(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.force(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_equilibrium_distribution",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_equilibrium_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_distribution(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.g))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_equilibrium_radial_distribution",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_equilibrium_radial_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.g))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_force",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_force(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_force(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_force(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_force(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_force(&p.g))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.g))},
Entry{module:"fjc/thermodynamics/isometric",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.g))},
Entry{module:"fjc/thermodynamics/isometric",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"equilibrium_distribution",free_args:&["nl","ll","norm","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::equilibrium_distribution(&p.nl,&p.ll,&p.norm,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).equilibrium_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.equilibrium_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_distribution(p.nl,p.ll,p.norm,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.equilibrium_distribution(&p.xi))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"equilibrium_radial_distribution",free_args:&["nl","ll","norm","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&p.nl,&p.ll,&p.norm,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).equilibrium_radial_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.equilibrium_radial_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution(p.nl,p.ll,p.norm,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.equilibrium_radial_distribution(&p.xi))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"force",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::force(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_force(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.force(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"gibbs_free_energy",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.gibbs_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.gibbs_free_energy(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"gibbs_free_energy_per_link",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_equilibrium_distribution",free_args:&["nl","norm","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&p.nl,&p.norm,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_equilibrium_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution(p.nl,p.norm,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_equilibrium_radial_distribution",free_args:&["nl","norm","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&p.nl,&p.norm,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_equilibrium_radial_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution(p.nl,p.norm,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_force",free_args:&["g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_force(&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_force(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_force(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_force(p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_force(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&p.g,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&p.g,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"relative_gibbs_free_energy",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.relative_gibbs_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.relative_gibbs_free_energy(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"relative_gibbs_free_energy_per_link",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isometric/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf))},
Entry{module:"fjc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf))},
Entry{module:"fjc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf))},
Entry{module:"fjc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf))},
Entry{module:"fjc/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"end_to_end_length",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::end_to_end_length(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).end_to_end_length(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.end_to_end_length(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.end_to_end_length(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"end_to_end_length_per_link",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::end_to_end_length_per_link(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).end_to_end_length_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.end_to_end_length_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_end_to_end_length_per_link(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.end_to_end_length_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"force",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::force(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).force(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.force(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_force(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.force(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"gibbs_free_energy",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.gibbs_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.gibbs_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"gibbs_free_energy_per_link",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.helmholtz_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.helmholtz_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_end_to_end_length",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_end_to_end_length(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_end_to_end_length(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_end_to_end_length_per_link",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length_per_link(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length_per_link(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_end_to_end_length_per_link(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_end_to_end_length_per_link(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_end_to_end_length_per_link(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_force",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_force(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_force(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_force(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_force(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_force(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_gibbs_free_energy(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_gibbs_free_energy(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy_per_link(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_gibbs_free_energy_per_link(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_gibbs_free_energy_per_link(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy_per_link(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy_per_link(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy_per_link(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy_per_link(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy_per_link(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy_per_link(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_gibbs_free_energy_per_link(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy_per_link(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy_per_link(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy_per_link(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy_per_link(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_nondimensional_relative_helmholtz_free_energy_per_link(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy_per_link(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"relative_gibbs_free_energy",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.relative_gibbs_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.relative_gibbs_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"relative_gibbs_free_energy_per_link",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.relative_gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_relative_gibbs_free_energy_per_link(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.relative_gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.relative_helmholtz_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.relative_helmholtz_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.relative_helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.relative_helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"force",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::force(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).force(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.force(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_force(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.force(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"nondimensional_force",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_force(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_force(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_force(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_force(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_force(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy_per_link(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy_per_link(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy_per_link(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy_per_link(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy_per_link(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_nondimensional_relative_helmholtz_free_energy_per_link(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_strong_potential_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"end_to_end_length",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).end_to_end_length(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"end_to_end_length_per_link",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length_per_link(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).end_to_end_length_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_end_to_end_length_per_link(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"force",free_args:&["pd","pk"],meth_args:&["pd","pk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::force(&p.pd,&p.pk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).force(&p.pd,&p.pk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.force(&p.pd,&p.pk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_force(p.pd,p.pk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.force(&p.pd,&p.pk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"gibbs_free_energy",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"gibbs_free_energy_per_link",free_args:&["nl","ll","hm","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_end_to_end_length",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_end_to_end_length_per_link",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length_per_link(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length_per_link(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length_per_link(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_end_to_end_length_per_link(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length_per_link(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_force",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_force(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_force(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_force(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_force(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_force(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["nl","ll","hm","npd","npk","t"],meth_args:&["npd","npk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.npd,&p.npk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy_per_link(&p.npd,&p.npk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy_per_link(&p.npd,&p.npk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.npd,p.npk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy_per_link(&p.npd,&p.npk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nl","npd","npk"],meth_args:&["npd","npk"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy_per_link(&p.nl,&p.npd,&p.npk)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy_per_link(&p.npd,&p.npk)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&p.npd,&p.npk)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_nondimensional_relative_gibbs_free_energy_per_link(p.nl,p.npd,p.npk)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&p.npd,&p.npk))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"relative_gibbs_free_energy",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy(&p.pd,&p.pk,&p.t))},
Entry{module:"fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",func:"relative_gibbs_free_energy_per_link",free_args:&["nl","ll","pd","pk","t"],meth_args:&["pd","pk","t"],free:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.pd,&p.pk,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_fjc_thermodynamics_modified_canonical_asymptotic_weak_potential_relative_gibbs_free_energy_per_link(p.nl,p.ll,p.pd,p.pk,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::fjc::FJC>().thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy_per_link(&p.pd,&p.pk,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"equilibrium_distribution",free_args:&["nl","ll","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::equilibrium_distribution(&p.nl,&p.ll,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).equilibrium_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.equilibrium_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_equilibrium_distribution(p.nl,p.ll,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.equilibrium_distribution(&p.xi))},
Entry{module:"ideal/thermodynamics/isometric",func:"equilibrium_radial_distribution",free_args:&["nl","ll","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::equilibrium_radial_distribution(&p.nl,&p.ll,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).equilibrium_radial_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.equilibrium_radial_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_equilibrium_radial_distribution(p.nl,p.ll,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.equilibrium_radial_distribution(&p.xi))},
Entry{module:"ideal/thermodynamics/isometric",func:"force",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::force(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_force(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.force(&p.xi,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_equilibrium_distribution",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_equilibrium_distribution(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_equilibrium_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_distribution(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.g))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_equilibrium_radial_distribution",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_equilibrium_radial_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.g))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_force",free_args:&["g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_force(&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_force(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_force(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_force(p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_force(&p.g))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(p.nl,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.g))},
Entry{module:"ideal/thermodynamics/isometric",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.g))},
Entry{module:"ideal/thermodynamics/isometric",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ideal/thermodynamics/isometric",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf))},
Entry{module:"ideal/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).nondimensional_end_to_end_length_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf))},
Entry{module:"ideal/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf))},
Entry{module:"ideal/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf))},
Entry{module:"ideal/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ideal/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ideal_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ideal::Ideal>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"equilibrium_distribution",free_args:&["nl","ll","ww","norm","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::equilibrium_distribution(&p.nl,&p.ll,&p.ww,&p.norm,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).equilibrium_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.equilibrium_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_distribution(p.nl,p.ll,p.ww,p.norm,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.equilibrium_distribution(&p.xi))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"equilibrium_radial_distribution",free_args:&["nl","ll","ww","norm","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&p.nl,&p.ll,&p.ww,&p.norm,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).equilibrium_radial_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.equilibrium_radial_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_equilibrium_radial_distribution(p.nl,p.ll,p.ww,p.norm,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.equilibrium_radial_distribution(&p.xi))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"force",free_args:&["nl","ll","ww","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::force(&p.nl,&p.ll,&p.ww,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_force(p.nl,p.ll,p.ww,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.force(&p.xi,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ww","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ww,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ww,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ww","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ww,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ww,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_equilibrium_distribution",free_args:&["nl","ll","ww","norm","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&p.nl,&p.ll,&p.ww,&p.norm,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_equilibrium_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_distribution(p.nl,p.ll,p.ww,p.norm,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&p.g))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_equilibrium_radial_distribution",free_args:&["nl","ll","ww","norm","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&p.nl,&p.ll,&p.ww,&p.norm,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_equilibrium_radial_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_equilibrium_radial_distribution(p.nl,p.ll,p.ww,p.norm,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&p.g))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_force",free_args:&["ll","ww","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_force(&p.ll,&p.ww,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_force(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_force(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_force(p.ll,p.ww,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_force(&p.g))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","ww","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ww,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ww,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ww","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ww,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ww,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","ll","ww","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ww,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_relative_helmholtz_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.ll,p.ww,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&p.g))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["ll","ww","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.ll,&p.ww,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.ll,p.ww,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ww","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ww,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ww,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"swfjc/thermodynamics/isometric/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ww","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ww,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isometric_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ww,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","ll","ww","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.ll,&p.ww,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_end_to_end_length(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.ll,p.ww,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["ll","ww","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.ll,&p.ww,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_end_to_end_length_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.ll,p.ww,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","ww","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ww,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.ww,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","ww","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ww,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.ww,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","ll","ww","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.ll,&p.ww,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_relative_gibbs_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.ll,p.ww,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["ll","ww","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.ll,&p.ww,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.ll,p.ww,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","ww","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ww,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ww,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","ww","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ww,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.ww,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","ll","ww","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ww,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_relative_helmholtz_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.ll,p.ww,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["ll","ww","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.ll,&p.ww,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.ll,p.ww,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"swfjc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ww","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ww,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_swfjc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ww,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::swfjc::SWFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/lennard_jones/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_lennard_jones_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"force",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_force(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_force",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/log_squared/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_log_squared_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"force",free_args:&["nl","ll","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::force(&p.nl,&p.ll,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_force(p.nl,p.ll,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.force(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_force",free_args:&["nls","nle","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&p.nls,&p.nle,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_force(p.nls,p.nle,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nle","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","nle","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.nle,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nle","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nle,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nle,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nle","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nle,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nle,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"force",free_args:&["nl","ll","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::force(&p.nl,&p.ll,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_force(p.nl,p.ll,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.force(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_force",free_args:&["nls","nle","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&p.nls,&p.nle,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_force(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_force(p.nls,p.nle,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nle","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nls","nle","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nls,p.nle,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nle","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nle,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nle,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nle","g"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nle,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nle,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","ls","le","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.ls,&p.le,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isometric_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.ls,p.le,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::end_to_end_length_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_end_to_end_length_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"end_to_end_length",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"end_to_end_length_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_end_to_end_length_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_end_to_end_length_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"end_to_end_length_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_end_to_end_length_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy",free_args:&["nl","ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"gibbs_free_energy_per_link",free_args:&["ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_gibbs_free_energy_per_link(p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_end_to_end_length(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_end_to_end_length_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_end_to_end_length_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_gibbs_free_energy_per_link(p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_nondimensional_relative_gibbs_free_energy_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",func:"relative_gibbs_free_energy_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_relative_gibbs_free_energy_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_asymptotic_reduced_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["ll","hm","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.ll,p.hm,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["ll","hm","nls","nle","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.ll,&p.hm,&p.nls,&p.nle,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.ll,p.hm,p.nls,p.nle,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nls","nle","nf"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nls,&p.nle,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nls,p.nle,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"ufjc/morse/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["ll","ls","le","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.ll,&p.ls,&p.le,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_ufjc_morse_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.ll,p.ls,p.le,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::ufjc::morse::MORSEFJC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"equilibrium_distribution",free_args:&["nl","ll","lp","norm","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::equilibrium_distribution(&p.nl,&p.ll,&p.lp,&p.norm,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).equilibrium_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.equilibrium_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_equilibrium_distribution(p.nl,p.ll,p.lp,p.norm,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.equilibrium_distribution(&p.xi))},
Entry{module:"wlc/thermodynamics/isometric",func:"equilibrium_radial_distribution",free_args:&["nl","ll","lp","norm","xi"],meth_args:&["xi"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::equilibrium_radial_distribution(&p.nl,&p.ll,&p.lp,&p.norm,&p.xi)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).equilibrium_radial_distribution(&p.xi)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.equilibrium_radial_distribution(&p.xi)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_equilibrium_radial_distribution(p.nl,p.ll,p.lp,p.norm,p.xi)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.equilibrium_radial_distribution(&p.xi))},
Entry{module:"wlc/thermodynamics/isometric",func:"force",free_args:&["nl","ll","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::force(&p.nl,&p.ll,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).force(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.force(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_force(p.nl,p.ll,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.force(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy(p.nl,p.ll,p.hm,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_equilibrium_distribution",free_args:&["nlp","norm","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&p.nlp,&p.norm,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_equilibrium_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_distribution(p.nlp,p.norm,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_equilibrium_distribution(&p.g))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_equilibrium_radial_distribution",free_args:&["nlp","norm","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&p.nlp,&p.norm,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_equilibrium_radial_distribution(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_equilibrium_radial_distribution(p.nlp,p.norm,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&p.g))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_force",free_args:&["nl","nlp","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_force(&p.nl,&p.nlp,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_force(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_force(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_force(p.nl,p.nlp,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_force(&p.g))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nlp","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nlp,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_helmholtz_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nlp,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_helmholtz_free_energy(&p.g,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nlp","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nlp,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nlp,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&p.g,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nlp","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&p.nlp,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_helmholtz_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy(p.nlp,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&p.g))},
Entry{module:"wlc/thermodynamics/isometric",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nl","nlp","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&p.nl,&p.nlp,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_nondimensional_relative_helmholtz_free_energy_per_link(p.nl,p.nlp,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&p.g))},
Entry{module:"wlc/thermodynamics/isometric",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_helmholtz_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.relative_helmholtz_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy(p.nl,p.ll,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.relative_helmholtz_free_energy(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"gibbs_free_energy",free_args:&["nl","ll","hm","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).gibbs_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.gibbs_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy(p.nl,p.ll,p.hm,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.gibbs_free_energy(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"gibbs_free_energy_per_link",free_args:&["nl","ll","hm","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).gibbs_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nlp","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nlp,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_gibbs_free_energy(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nlp,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&p.g,&p.t))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["nl","ll","hm","nlp","g","t"],meth_args:&["g","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nlp,&p.g,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_gibbs_free_energy_per_link(&p.g,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&p.g,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.nlp,p.g,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&p.g,&p.t))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nlp","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nlp,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_gibbs_free_energy(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy(p.nl,p.nlp,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&p.g))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nl","nlp","g"],meth_args:&["g"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&p.nl,&p.nlp,&p.g)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_gibbs_free_energy_per_link(&p.g)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&p.g)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_nondimensional_relative_gibbs_free_energy_per_link(p.nl,p.nlp,p.g)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&p.g))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"relative_gibbs_free_energy",free_args:&["nl","ll","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&p.nl,&p.ll,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_gibbs_free_energy(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.relative_gibbs_free_energy(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy(p.nl,p.ll,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.relative_gibbs_free_energy(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isometric/legendre",func:"relative_gibbs_free_energy_per_link",free_args:&["nl","ll","lp","xi","t"],meth_args:&["xi","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.lp,&p.xi,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_gibbs_free_energy_per_link(&p.xi,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&p.xi,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isometric_legendre_relative_gibbs_free_energy_per_link(p.nl,p.ll,p.lp,p.xi,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&p.xi,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"end_to_end_length",free_args:&["nl","ll","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::end_to_end_length(&p.nl,&p.ll,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).end_to_end_length(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.end_to_end_length(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length(p.nl,p.ll,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.end_to_end_length(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"end_to_end_length_per_link",free_args:&["nl","ll","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::end_to_end_length_per_link(&p.nl,&p.ll,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).end_to_end_length_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_end_to_end_length_per_link(p.nl,p.ll,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.end_to_end_length_per_link(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"gibbs_free_energy",free_args:&["nl","ll","hm","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.gibbs_free_energy(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"gibbs_free_energy_per_link",free_args:&["nl","ll","hm","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length",free_args:&["nl","nlp","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length(&p.nl,&p.nlp,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_end_to_end_length(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length(p.nl,p.nlp,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.nondimensional_end_to_end_length(&p.nf))},
Entry{module:"wlc/thermodynamics/isotensional",func:"nondimensional_end_to_end_length_per_link",free_args:&["nl","nlp","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&p.nl,&p.nlp,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_end_to_end_length_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_end_to_end_length_per_link(p.nl,p.nlp,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&p.nf))},
Entry{module:"wlc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy",free_args:&["nl","ll","hm","nlp","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&p.nl,&p.ll,&p.hm,&p.nlp,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_gibbs_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy(p.nl,p.ll,p.hm,p.nlp,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy(&p.nf,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"nondimensional_gibbs_free_energy_per_link",free_args:&["nl","ll","hm","nlp","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nlp,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_gibbs_free_energy_per_link(p.nl,p.ll,p.hm,p.nlp,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy",free_args:&["nl","nlp","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&p.nl,&p.nlp,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_gibbs_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy(p.nl,p.nlp,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&p.nf))},
Entry{module:"wlc/thermodynamics/isotensional",func:"nondimensional_relative_gibbs_free_energy_per_link",free_args:&["nl","nlp","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&p.nl,&p.nlp,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_nondimensional_relative_gibbs_free_energy_per_link(p.nl,p.nlp,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&p.nf))},
Entry{module:"wlc/thermodynamics/isotensional",func:"relative_gibbs_free_energy",free_args:&["nl","ll","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::relative_gibbs_free_energy(&p.nl,&p.ll,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_gibbs_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy(p.nl,p.ll,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.relative_gibbs_free_energy(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional",func:"relative_gibbs_free_energy_per_link",free_args:&["nl","ll","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&p.nl,&p.ll,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_gibbs_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_relative_gibbs_free_energy_per_link(p.nl,p.ll,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy",free_args:&["nl","ll","hm","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy(p.nl,p.ll,p.hm,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy",free_args:&["nl","ll","hm","nlp","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&p.nl,&p.ll,&p.hm,&p.nlp,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_helmholtz_free_energy(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy(p.nl,p.ll,p.hm,p.nlp,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&p.nf,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"nondimensional_helmholtz_free_energy_per_link",free_args:&["nl","ll","hm","nlp","nf","t"],meth_args:&["nf","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.hm,&p.nlp,&p.nf,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_helmholtz_free_energy_per_link(p.nl,p.ll,p.hm,p.nlp,p.nf,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&p.nf,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy",free_args:&["nl","nlp","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&p.nl,&p.nlp,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_helmholtz_free_energy(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy(p.nl,p.nlp,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&p.nf))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"nondimensional_relative_helmholtz_free_energy_per_link",free_args:&["nl","nlp","nf"],meth_args:&["nf"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&p.nl,&p.nlp,&p.nf)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_nondimensional_relative_helmholtz_free_energy_per_link(p.nl,p.nlp,p.nf)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&p.nf))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy",free_args:&["nl","ll","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&p.nl,&p.ll,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_helmholtz_free_energy(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy(p.nl,p.ll,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&p.f,&p.t))},
Entry{module:"wlc/thermodynamics/isotensional/legendre",func:"relative_helmholtz_free_energy_per_link",free_args:&["nl","ll","lp","f","t"],meth_args:&["f","t"],free:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&p.nl,&p.ll,&p.lp,&p.f,&p.t)),meth:Some(|p:&P| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).relative_helmholtz_free_energy_per_link(&p.f,&p.t)),root:Some(|p:&P| polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t)),ext:Some(|p:&P| unsafe{physics_single_chain_wlc_thermodynamics_isotensional_legendre_relative_helmholtz_free_energy_per_link(p.nl,p.ll,p.lp,p.f,p.t)}),on:Some(|o:&Obj,p:&P| o.get::<polymers::physics::single_chain::wlc::WLC>().thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&p.f,&p.t))},
];
/// every public parameter field of every nested model object: (module, field, |p| (value, expected))
pub static FIELDS: &[(&str, &str, fn(&P) -> (f64, f64))] = &[
("efjc","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.link_length as f64, p.ll as f64)),
("efjc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.alternative.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/alternative/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.alternative.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/alternative/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("efjc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("efjc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("efjc/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.link_stiffness as f64, p.ls as f64)),
("efjc/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("fjc","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.link_length as f64, p.ll as f64)),
("fjc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isometric/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isometric/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isometric/legendre","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isometric/legendre","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isometric/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isometric.legendre.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isometric/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.strong_potential.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential","hinge_mass",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential","link_length",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential","link_length",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm).thermodynamics.modified_canonical.asymptotic.weak_potential.number_of_links as f64, p.nl as f64)),
("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential","number_of_links",|p:&P| (polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("ideal","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("ideal","link_length",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("ideal","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("ideal/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.hinge_mass as f64, p.hm as f64)),
("ideal/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::Ideal::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("ideal/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.link_length as f64, p.ll as f64)),
("ideal/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::Ideal::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("ideal/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.number_of_links as f64, p.nl as f64)),
("ideal/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::Ideal::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("ideal/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("ideal/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("ideal/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("ideal/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("ideal/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("ideal/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("ideal/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("ideal/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).hinge_mass as f64, p.hm as f64)),
("ideal/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("ideal/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).link_length as f64, p.ll as f64)),
("ideal/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("ideal/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init(p.nl,p.ll,p.hm).number_of_links as f64, p.nl as f64)),
("swfjc","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).hinge_mass as f64, p.hm as f64)),
("swfjc","link_length",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).link_length as f64, p.ll as f64)),
("swfjc","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).number_of_links as f64, p.nl as f64)),
("swfjc","well_width",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).well_width as f64, p.ww as f64)),
("swfjc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::SWFJC::init(p.nl,p.ll,p.hm,p.ww).hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.link_length as f64, p.ll as f64)),
("swfjc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::SWFJC::init(p.nl,p.ll,p.hm,p.ww).link_length as f64, p.ll as f64)),
("swfjc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::SWFJC::init(p.nl,p.ll,p.hm,p.ww).number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics","well_width",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.well_width as f64, p.ww as f64)),
("swfjc/thermodynamics","well_width",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::SWFJC::init(p.nl,p.ll,p.hm,p.ww).well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::SWFJC::init(p.nl,p.ll,p.hm,p.ww).hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::SWFJC::init(p.nl,p.ll,p.hm,p.ww).link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::SWFJC::init(p.nl,p.ll,p.hm,p.ww).number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isometric","well_width",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isometric","well_width",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::SWFJC::init(p.nl,p.ll,p.hm,p.ww).well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isometric/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isometric/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isometric/legendre","link_length",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isometric/legendre","link_length",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isometric/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isometric/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isometric/legendre","well_width",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isometric.legendre.well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isometric/legendre","well_width",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isotensional","well_width",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isotensional","well_width",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init(p.nl,p.ll,p.hm,p.ww).well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).hinge_mass as f64, p.hm as f64)),
("swfjc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).link_length as f64, p.ll as f64)),
("swfjc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).number_of_links as f64, p.nl as f64)),
("swfjc/thermodynamics/isotensional/legendre","well_width",|p:&P| (polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww).thermodynamics.isotensional.legendre.well_width as f64, p.ww as f64)),
("swfjc/thermodynamics/isotensional/legendre","well_width",|p:&P| (polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init(p.nl,p.ll,p.hm,p.ww).well_width as f64, p.ww as f64)),
("ufjc/lennard_jones","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/lennard_jones/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).hinge_mass as f64, p.hm as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_length as f64, p.ll as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).number_of_links as f64, p.nl as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).thermodynamics.isotensional.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/log_squared/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls).link_stiffness as f64, p.ls as f64)),
("ufjc/morse","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.legendre.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isometric.asymptotic.reduced.legendre.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.legendre.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.asymptotic.reduced.legendre.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).hinge_mass as f64, p.hm as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_length as f64, p.ll as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).number_of_links as f64, p.nl as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","link_stiffness",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_stiffness as f64, p.ls as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).thermodynamics.isotensional.legendre.link_energy as f64, p.le as f64)),
("ufjc/morse/thermodynamics/isotensional/legendre","link_energy",|p:&P| (polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le).link_energy as f64, p.le as f64)),
("wlc","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).hinge_mass as f64, p.hm as f64)),
("wlc","link_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).link_length as f64, p.ll as f64)),
("wlc","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).number_of_links as f64, p.nl as f64)),
("wlc","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::WLC::init(p.nl,p.ll,p.hm,p.lp).hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.link_length as f64, p.ll as f64)),
("wlc/thermodynamics","link_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::WLC::init(p.nl,p.ll,p.hm,p.lp).link_length as f64, p.ll as f64)),
("wlc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::WLC::init(p.nl,p.ll,p.hm,p.lp).number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::WLC::init(p.nl,p.ll,p.hm,p.lp).persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isometric","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isometric","link_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isometric","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isometric","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isometric","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init(p.nl,p.ll,p.hm,p.lp).persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isometric/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isometric/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isometric/legendre","link_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isometric/legendre","link_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isometric/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isometric/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isometric/legendre","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isometric.legendre.persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isometric/legendre","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isotensional","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isotensional","link_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isotensional","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isotensional","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isotensional","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init(p.nl,p.ll,p.hm,p.lp).persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isotensional/legendre","hinge_mass",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).hinge_mass as f64, p.hm as f64)),
("wlc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isotensional/legendre","link_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).link_length as f64, p.ll as f64)),
("wlc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isotensional/legendre","number_of_links",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).number_of_links as f64, p.nl as f64)),
("wlc/thermodynamics/isotensional/legendre","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp).thermodynamics.isotensional.legendre.persistance_length as f64, p.lp as f64)),
("wlc/thermodynamics/isotensional/legendre","persistance_length",|p:&P| (polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init(p.nl,p.ll,p.hm,p.lp).persistance_length as f64, p.lp as f64)),
];
/// a model object of a family
pub fn make(module: &str, p: &P) -> Obj {
    if module == "efjc" || module.starts_with("efjc/") { return crate::obj!(polymers::physics::single_chain::efjc::EFJC, polymers::physics::single_chain::efjc::EFJC::init(p.nl,p.ll,p.hm,p.ls)); }
    if module == "fjc" || module.starts_with("fjc/") { return crate::obj!(polymers::physics::single_chain::fjc::FJC, polymers::physics::single_chain::fjc::FJC::init(p.nl,p.ll,p.hm)); }
    if module == "ideal" || module.starts_with("ideal/") { return crate::obj!(polymers::physics::single_chain::ideal::Ideal, polymers::physics::single_chain::ideal::Ideal::init(p.nl,p.ll,p.hm)); }
    if module == "swfjc" || module.starts_with("swfjc/") { return crate::obj!(polymers::physics::single_chain::swfjc::SWFJC, polymers::physics::single_chain::swfjc::SWFJC::init(p.nl,p.ll,p.hm,p.ww)); }
    if module == "ufjc/lennard_jones" || module.starts_with("ufjc/lennard_jones/") { return crate::obj!(polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC, polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init(p.nl,p.ll,p.hm,p.ls)); }
    if module == "ufjc/log_squared" || module.starts_with("ufjc/log_squared/") { return crate::obj!(polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC, polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init(p.nl,p.ll,p.hm,p.ls)); }
    if module == "ufjc/morse" || module.starts_with("ufjc/morse/") { return crate::obj!(polymers::physics::single_chain::ufjc::morse::MORSEFJC, polymers::physics::single_chain::ufjc::morse::MORSEFJC::init(p.nl,p.ll,p.hm,p.ls,p.le)); }
    if module == "wlc" || module.starts_with("wlc/") { return crate::obj!(polymers::physics::single_chain::wlc::WLC, polymers::physics::single_chain::wlc::WLC::init(p.nl,p.ll,p.hm,p.lp)); }
    panic!("no model {module}")
}
