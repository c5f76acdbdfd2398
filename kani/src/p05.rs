//! Type promotion: the whole table, its laws, and the descriptors it ranges over.
use crate::spec::*;
use crate::array::dtype::promote_dtype;

fn make(k: u8) -> DType {
    match k { 0 => DType::bool(), 1 => DType::int8(), 2 => DType::int16(), 3 => DType::int32(), 4 => DType::int64(),
        5 => DType::uint8(), 6 => DType::uint16(), 7 => DType::uint32(), 8 => DType::uint64(),
        9 => DType::float16(), 10 => DType::float32(), 11 => DType::float64(), 12 => DType::complex64(), _ => DType::complex128() }
}
fn code(k: &DTypeKind) -> u8 {
    match k { DTypeKind::Bool => 0, DTypeKind::Int8 => 1, DTypeKind::Int16 => 2, DTypeKind::Int32 => 3, DTypeKind::Int64 => 4,
        DTypeKind::Uint8 => 5, DTypeKind::Uint16 => 6, DTypeKind::Uint32 => 7, DTypeKind::Uint64 => 8,
        DTypeKind::Float16 => 9, DTypeKind::Float32 => 10, DTypeKind::Float64 => 11, DTypeKind::Complex64 => 12, DTypeKind::Complex128 => 13, _ => 99 }
}
fn dec(c: u8) -> u8 { if c >= b'A' { c - b'A' + 10 } else { c - b'0' } }
/// NumPy's table (np.promote_types), rows and columns in the order of `make`
const TABLE: [&[u8; 14]; 14] = [
    b"0123456789ABCD",
    b"11234234B9ABCD",
    b"22234234BAABCD",
    b"33334334BBBBDD",
    b"44444444BBBBDD",
    b"5223456789ABCD",
    b"633346678AABCD",
    b"744447778BBBDD",
    b"8BBBB8888BBBDD",
    b"99ABB9ABB9ABCD",
    b"AAABBAABBAABCD",
    b"BBBBBBBBBBBBDD",
    b"CCCDDCCDDCCDCD",
    b"DDDDDDDDDDDDDD",
];
/// Range and precision of a type: (integer bits below zero, integer bits above zero, significand bits, complex)
fn holds(wide: u8, narrow: u8) -> bool {
    if wide == narrow { return true; }
    let int = |k: u8| -> Option<(u32, bool)> { match k { 1 => Some((7, true)), 2 => Some((15, true)), 3 => Some((31, true)), 4 => Some((63, true)),
        5 => Some((8, false)), 6 => Some((16, false)), 7 => Some((32, false)), 8 => Some((64, false)), 0 => Some((1, false)), _ => None } };
    let mant = |k: u8| -> Option<u32> { match k { 9 => Some(11), 10 => Some(24), 11 => Some(53), 12 => Some(24), 13 => Some(53), _ => None } };
    match (int(wide), int(narrow)) {
        (Some((w, ws)), Some((n, ns))) => wide != 0 && w >= n && (ws || !ns),
        (None, Some((n, _))) => mant(wide).unwrap() >= n || mant(wide) == Some(53), // 64-bit integers go to float64
        (Some(_), None) => false,
        (None, None) => mant(wide) >= mant(narrow) && (wide >= 12 || narrow < 12),
    }
}
/// every pair with the first type fixed
fn row(i: u8) {
    let a = make(i);
    let mut j = 0u8;
    while j < 14 {
        let b = make(j);
        let p = promote_dtype(&a, &b);
        let r = code(&p.kind());
        std::mem::forget(b); std::mem::forget(p); // (dropping them costs the model checker more than the rest)
        assert!(r == dec(TABLE[i as usize][j as usize]));
        j += 1;
    }
    std::mem::forget(a);
}
macro_rules! rows { ($($n:ident = $i:expr),*) => { $(#[kani::proof] #[kani::unwind(16)] pub fn $n() { row($i) })* } }
rows!(promote_bool = 0, promote_int8 = 1, promote_int16 = 2, promote_int32 = 3, promote_int64 = 4, promote_uint8 = 5, promote_uint16 = 6,
    promote_uint32 = 7, promote_uint64 = 8, promote_float16 = 9, promote_float32 = 10, promote_float64 = 11, promote_complex64 = 12, promote_complex128 = 13);
/// the table is commutative and never narrower than an operand, so promotion is
#[kani::proof] #[kani::unwind(16)] pub fn table_laws() {
    let i: u8 = kani::any(); let j: u8 = kani::any(); kani::assume(i < 14 && j < 14);
    let r = dec(TABLE[i as usize][j as usize]);
    assert!(r == dec(TABLE[j as usize][i as usize]));
    assert!(holds(r, i) && holds(r, j));
    assert!(i != j || r == i);
}
/// the descriptors themselves
#[kani::proof] #[kani::unwind(16)] pub fn descriptors() {
    let size = [1usize, 1, 2, 4, 8, 1, 2, 4, 8, 2, 4, 8, 8, 16];
    let mut i = 0u8;
    while i < 14 {
        let d = make(i);
        assert!(code(&d.kind()) == i);
        assert!(d.itemsize() == size[i as usize]);
        assert!(d.is_integer() == (i >= 1 && i <= 8));
        assert!(d == make(i));
        i += 1;
    }
}
