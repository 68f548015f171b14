//! Generated by tools/gen_templates.py

pub const PRIMS: &[&str] = &["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "Amount", "Address"];

pub const ARRAYS: &[usize] = &[1, 2, 3, 10];

/// The fields (primitive, length of the array or 0) of the templates `S0`, `S1`...
pub const STORAGE: &[&[(usize, u32)]] = &[
    &[(0, 0), (10, 2), (10, 3), (9, 1), (10, 2), (8, 3), (10, 1), (7, 2), (10, 3), (6, 1), (10, 2), (5, 3), (10, 1), (4, 2), (10, 3), (3, 1), (10, 2), (2, 3), (10, 1), (1, 2), (10, 3), (0, 1), (10, 2), (10, 0), (10, 1), (9, 0), (10, 3), (8, 0), (10, 2), (7, 0), (10, 1), (6, 0), (10, 3), (5, 0), (10, 2), (4, 0), (10, 1), (3, 0), (10, 3), (2, 0), (10, 2), (1, 0), (10, 1), (0, 0), (9, 3)],
    &[(9, 2), (9, 3), (8, 1), (9, 2), (7, 3), (9, 1), (6, 2), (9, 3), (5, 1), (9, 2), (4, 3), (9, 1), (3, 2), (9, 3), (2, 1), (9, 2), (1, 3), (9, 1), (0, 2), (9, 3), (10, 0), (9, 2), (9, 0), (9, 1), (8, 0), (9, 3), (7, 0), (9, 2), (6, 0), (9, 1), (5, 0), (9, 3), (4, 0), (9, 2), (3, 0), (9, 1), (2, 0), (9, 3), (1, 0), (9, 2), (0, 0), (8, 1), (8, 2), (7, 3), (8, 1)],
    &[(8, 3), (6, 1), (8, 2), (5, 3), (8, 1), (4, 2), (8, 3), (3, 1), (8, 2), (2, 3), (8, 1), (1, 2), (8, 3), (0, 1), (8, 2), (10, 0), (8, 1), (9, 0), (8, 3), (8, 0), (8, 2), (7, 0), (8, 1), (6, 0), (8, 3), (5, 0), (8, 2), (4, 0), (8, 1), (3, 0), (8, 3), (2, 0), (8, 2), (1, 0), (8, 1), (0, 0), (7, 3), (7, 1), (6, 2), (7, 3), (5, 1), (7, 2), (4, 3), (7, 1), (3, 2)],
    &[(3, 1), (7, 2), (2, 3), (7, 1), (1, 2), (7, 3), (0, 1), (7, 2), (10, 0), (7, 1), (9, 0), (7, 3), (8, 0), (7, 2), (7, 0), (7, 1), (6, 0), (7, 3), (5, 0), (7, 2), (4, 0), (7, 1), (3, 0), (7, 3), (2, 0), (7, 2), (1, 0), (7, 1), (0, 0), (6, 3), (6, 1), (5, 2), (6, 3), (4, 1), (6, 2), (3, 3), (6, 1), (2, 2), (6, 3), (1, 1), (6, 2), (0, 3), (6, 1), (10, 0), (6, 3)],
    &[(6, 2), (9, 0), (6, 1), (8, 0), (6, 3), (7, 0), (6, 2), (6, 0), (6, 1), (5, 0), (6, 3), (4, 0), (6, 2), (3, 0), (6, 1), (2, 0), (6, 3), (1, 0), (6, 2), (0, 0), (5, 1), (5, 2), (4, 3), (5, 1), (3, 2), (5, 3), (2, 1), (5, 2), (1, 3), (5, 1), (0, 2), (5, 3), (10, 0), (5, 2), (9, 0), (5, 1), (8, 0), (5, 3), (7, 0), (5, 2), (6, 0), (5, 1), (5, 0), (5, 3), (4, 0)],
    &[(4, 0), (5, 1), (3, 0), (5, 3), (2, 0), (5, 2), (1, 0), (5, 1), (0, 0), (4, 3), (4, 1), (3, 2), (4, 3), (2, 1), (4, 2), (1, 3), (4, 1), (0, 2), (4, 3), (10, 0), (4, 2), (9, 0), (4, 1), (8, 0), (4, 3), (7, 0), (4, 2), (6, 0), (4, 1), (5, 0), (4, 3), (4, 0), (4, 2), (3, 0), (4, 1), (2, 0), (4, 3), (1, 0), (4, 2), (0, 0), (3, 1), (3, 2), (2, 3), (3, 1), (1, 2)],
    &[(1, 1), (3, 2), (0, 3), (3, 1), (10, 0), (3, 3), (9, 0), (3, 2), (8, 0), (3, 1), (7, 0), (3, 3), (6, 0), (3, 2), (5, 0), (3, 1), (4, 0), (3, 3), (3, 0), (3, 2), (2, 0), (3, 1), (1, 0), (3, 3), (0, 0), (2, 2), (2, 3), (1, 1), (2, 2), (0, 3), (2, 1), (10, 0), (2, 3), (9, 0), (2, 2), (8, 0), (2, 1), (7, 0), (2, 3), (6, 0), (2, 2), (5, 0), (2, 1), (4, 0), (2, 3)],
    &[(2, 2), (3, 0), (2, 1), (2, 0), (2, 3), (1, 0), (2, 2), (0, 0), (1, 1), (1, 2), (0, 3), (1, 1), (10, 0), (1, 3), (9, 0), (1, 2), (8, 0), (1, 1), (7, 0), (1, 3), (6, 0), (1, 2), (5, 0), (1, 1), (4, 0), (1, 3), (3, 0), (1, 2), (2, 0), (1, 1), (1, 0), (1, 3), (0, 0), (0, 2), (0, 3), (10, 0), (0, 2), (9, 0), (0, 1), (8, 0), (0, 3), (7, 0), (0, 2), (6, 0), (0, 1)],
    &[(0, 3), (5, 0), (0, 2), (4, 0), (0, 1), (3, 0), (0, 3), (2, 0), (0, 2), (1, 0), (0, 1), (0, 0), (10, 0), (10, 0), (9, 0), (10, 0), (8, 0), (10, 0), (7, 0), (10, 0), (6, 0), (10, 0), (5, 0), (10, 0), (4, 0), (10, 0), (3, 0), (10, 0), (2, 0), (10, 0), (1, 0), (10, 0), (0, 0), (9, 0), (9, 0), (8, 0), (9, 0), (7, 0), (9, 0), (6, 0), (9, 0), (5, 0), (9, 0), (4, 0), (9, 0)],
    &[(9, 0), (3, 0), (9, 0), (2, 0), (9, 0), (1, 0), (9, 0), (0, 0), (8, 0), (8, 0), (7, 0), (8, 0), (6, 0), (8, 0), (5, 0), (8, 0), (4, 0), (8, 0), (3, 0), (8, 0), (2, 0), (8, 0), (1, 0), (8, 0), (0, 0), (7, 0), (7, 0), (6, 0), (7, 0), (5, 0), (7, 0), (4, 0), (7, 0), (3, 0), (7, 0), (2, 0), (7, 0), (1, 0), (7, 0), (0, 0), (6, 0), (6, 0), (5, 0), (6, 0), (4, 0)],
    &[(4, 0), (6, 0), (3, 0), (6, 0), (2, 0), (6, 0), (1, 0), (6, 0), (0, 0), (5, 0), (5, 0), (4, 0), (5, 0), (3, 0), (5, 0), (2, 0), (5, 0), (1, 0), (5, 0), (0, 0), (4, 0), (4, 0), (3, 0), (4, 0), (2, 0), (4, 0), (1, 0), (4, 0), (0, 0), (3, 0), (3, 0), (2, 0), (3, 0), (1, 0), (3, 0), (0, 0), (2, 0), (2, 0), (1, 0), (2, 0), (0, 0), (1, 0), (1, 0), (0, 0), (0, 0)],
    &[(2, 300), (10, 20), (4, 0), (0, 257), (9, 66), (5, 10), (3, 0)],
    &[(9, 0), (10, 0), (9, 3), (0, 0), (10, 2), (9, 0)],
];
