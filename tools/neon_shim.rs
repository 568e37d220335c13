//! Portable stand-ins for the NEON intrinsics, with the meaning documented by
//! Arm, so that the code written against them can run on any host.
//!
//! Only compiled into a copy of the crate made by /verif/tools/copies.py.
#![allow(non_camel_case_types, dead_code, clippy::all)]
#![allow(missing_docs)]

macro_rules! vectors {
  ($($name:ident = $elem:ty, $n:literal;)*) => {$(
    #[derive(Clone, Copy)]
    #[repr(C, align(16))]
    pub struct $name([$elem; $n]);
  )*};
}
vectors! { uint8x16_t = u8, 16; uint16x8_t = u16, 8; uint32x4_t = u32, 4; uint64x2_t = u64, 2; int8x16_t = i8, 16; }

macro_rules! half_vectors {
  ($($name:ident = $elem:ty, $n:literal;)*) => {$(
    #[derive(Clone, Copy)]
    #[repr(C, align(8))]
    pub struct $name([$elem; $n]);
  )*};
}
half_vectors! { uint8x8_t = u8, 8; uint16x4_t = u16, 4; uint32x2_t = u32, 2; uint64x1_t = u64, 1; }

pub unsafe fn vld1q_u8(p: *const u8) -> uint8x16_t {
  uint8x16_t(core::ptr::read_unaligned(p as *const [u8; 16]))
}
pub unsafe fn vst1q_u8(p: *mut u8, v: uint8x16_t) {
  core::ptr::write_unaligned(p as *mut [u8; 16], v.0)
}
pub unsafe fn vdupq_n_u8(v: u8) -> uint8x16_t {
  uint8x16_t([v; 16])
}
pub unsafe fn vmovq_n_u8(v: u8) -> uint8x16_t {
  uint8x16_t([v; 16])
}
fn zip(a: uint8x16_t, b: uint8x16_t, f: impl Fn(u8, u8) -> u8) -> uint8x16_t {
  let mut out = [0; 16];
  for i in 0..16 {
    out[i] = f(a.0[i], b.0[i]);
  }
  uint8x16_t(out)
}
pub unsafe fn vceqq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |a, b| if a == b { 0xff } else { 0 })
}
pub unsafe fn vorrq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |a, b| a | b)
}
pub unsafe fn vandq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |a, b| a & b)
}
pub unsafe fn veorq_u8(a: uint8x16_t, b: uint8x16_t) -> uint8x16_t {
  zip(a, b, |a, b| a ^ b)
}
pub unsafe fn vmvnq_u8(a: uint8x16_t) -> uint8x16_t {
  zip(a, a, |a, _| !a)
}
pub unsafe fn vmaxvq_u8(a: uint8x16_t) -> u8 {
  *a.0.iter().max().unwrap()
}
pub unsafe fn vminvq_u8(a: uint8x16_t) -> u8 {
  *a.0.iter().min().unwrap()
}
pub unsafe fn vreinterpretq_u16_u8(a: uint8x16_t) -> uint16x8_t {
  // lane 0 holds the bytes at the lowest addresses, little-endian
  let mut out = [0; 8];
  for i in 0..8 {
    out[i] = u16::from_le_bytes([a.0[2 * i], a.0[2 * i + 1]]);
  }
  uint16x8_t(out)
}
pub unsafe fn vreinterpretq_u64_u8(a: uint8x16_t) -> uint64x2_t {
  let lane = |i: usize| u64::from_le_bytes(a.0[8 * i..8 * i + 8].try_into().unwrap());
  uint64x2_t([lane(0), lane(1)])
}
pub unsafe fn vreinterpret_u64_u8(a: uint8x8_t) -> uint64x1_t {
  uint64x1_t([u64::from_le_bytes(a.0)])
}
/// Shift each 16-bit lane right and keep its low byte.
pub unsafe fn vshrn_n_u16(a: uint16x8_t, n: i32) -> uint8x8_t {
  assert!((1..=8).contains(&n));
  let mut out = [0; 8];
  for i in 0..8 {
    out[i] = (a.0[i] >> n) as u8;
  }
  uint8x8_t(out)
}
pub unsafe fn vget_lane_u64(a: uint64x1_t, lane: i32) -> u64 {
  a.0[lane as usize]
}
pub unsafe fn vgetq_lane_u64(a: uint64x2_t, lane: i32) -> u64 {
  a.0[lane as usize]
}
