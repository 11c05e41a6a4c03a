#!/usr/bin/env python3
"""Small changes to the library that each break a property, and small changes that break nothing.
Applies them one at a time to scratch copies of the repository and of these checks, runs the
property's check there and removes the copies in the end.

usage: mutants.py [-j copies] [name or property ...]"""
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
S = "succinct_neo/src/"
BV, BK, SL, SC, TI, TR = (S + "bit_vec/" + x for x in ("mod.rs", "backing.rs", "slice/mod.rs", "slice/slicing.rs", "slice/trait_impls.rs", "traits.rs"))
IV = S + "int_vec/mod.rs"
FP = S + "rank_select/flat_popcount/mod.rs"
ST = S + "rank_select/flat_popcount/strats.rs"
RT = S + "rank_select/traits.rs"
XT = "xtask/src/main.rs"

# name, property, file, [(old, new, which occurrence (0 = first, -1 = last))]
M = [
 ("b1", "C01", BK, [("let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).flip_bit", "let internal_index = index & (WORD_MASK >> (index > 511) as usize);\n\n        unsafe { self.get_unchecked_mut(block_index).flip_bit", 0)]),
 ("b2", "C01", BK, [("let block_index = index >> WORD_EXP;\n        let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", "let block_index = (index as u32 >> WORD_EXP) as usize;\n        let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", 0)]),
 ("b3", "C01", BK, [("let block_index = index >> WORD_EXP;\n\n        let internal_index", "let block_index = (index as u32 >> WORD_EXP) as usize;\n\n        let internal_index", 0)]),
 ("b4", "C01", BK, [("*self &= !(1 << index)", "if *self != 1 << 7 { *self &= !(1 << index) }", 0)]),
 ("s1", "C02", SC, [("Bound::Excluded(&s) => s + 1", "Bound::Excluded(&s) => s", 0)]),
 ("s2", "C02", SC, [("Bound::Excluded(&s) => s.checked_add(1).expect(\"left bound too large\")", "Bound::Excluded(&s) => s.checked_add(1).expect(\"left bound too large\") - (s == 63) as usize", 1)]),
 ("s3", "C02", SL, [("BitSlice::new(&self.backing, self.start + index, self.end)", "BitSlice::new(&self.backing, self.start + index, self.end.max(self.start + index) - (index == 0 && self.start > 0) as usize)", 0)]),
 ("s4", "C02", SL, [("BitSlice::new(ptr.as_mut().unwrap(), self.start + index, self.end)", "BitSlice::new(ptr.as_mut().unwrap(), self.start.max(1) + index - 1 + (self.start == 0) as usize, self.end)", 0)]),
 ("s6", "C03", SC, [("if end > self.len() {", "if end > (self.len() + 63) / 64 * 64 {", -1)]),
 ("s7", "C03", SL, [("if index >= self.len() {\n            panic!(\"index is {index} but length is {}\", self.len())\n        }\n\n        let ptr", "if index > self.len() {\n            panic!(\"index is {index} but length is {}\", self.len())\n        }\n\n        let ptr", 0)]),
 ("s8", "C03", BV, [("if index >= self.len() {\n            panic!(\"index is {index} but length is {}\", self.size)\n        }\n        self.data.flip_bit(index)", "if index >= self.len() && index >= self.raw().len() * 64 {\n            panic!(\"index is {index} but length is {}\", self.size)\n        }\n        unsafe { self.flip_bit_unchecked(index) }", 0)]),
 ("s9", "C03", SL, [("start <= end,", "start <= end || end == 0,", 0)]),
 ("i1", "C04", TI, [("self.end.saturating_sub(self.current)", "self.end.saturating_sub(self.current).max((self.end == 65) as usize)", 0)]),
 ("i2", "C04", TI, [("    fn size_hint", "    fn nth(&mut self, n: usize) -> Option<bool> {\n        self.current += n;\n        if self.current >= self.end {\n            return None;\n        }\n        let v = self.backing.get_bit(self.current);\n        self.current += 1;\n        Some(v)\n    }\n\n    fn size_hint", 0)]),
 ("i3", "C04", TI, [("    fn size_hint", "    fn count(self) -> usize {\n        self.end - self.current.min(self.end).max(1) + 1 - (self.current > 0) as usize\n    }\n\n    fn size_hint", 0)]),
 ("i4", "C04", TI, [("    fn size_hint", "    fn last(self) -> Option<bool> {\n        if self.end == 0 { None } else { Some(self.backing.get_bit(self.end - 1)) }\n    }\n\n    fn size_hint", 0)]),
 ("i5", "C04", IV, [("        (self.len(), Some(self.len()))", "        (self.len(), Some(self.v.len()))", -1)]),
 ("i6", "C04", IV, [("    fn size_hint", "    fn nth(&mut self, n: usize) -> Option<usize> {\n        self.i = (self.i + n).min(self.v.len());\n        let r = self.next();\n        if n > 64 { self.i = self.v.len(); }\n        r\n    }\n\n    fn size_hint", 0)]),
 ("i7", "C04", TI, [("    fn size_hint", "    fn fold<A, F: FnMut(A, bool) -> A>(self, init: A, mut f: F) -> A {\n        let mut acc = init;\n        let mut i = self.current;\n        while i + 1 < self.end {\n            acc = f(acc, self.backing.get_bit(i));\n            acc = f(acc, self.backing.get_bit(i + 1));\n            i += 2;\n        }\n        acc\n    }\n\n    fn size_hint", 0)]),
 ("i8", "C04", SL, [("            current: start,\n            end,", "            current: start,\n            end: end.max(start + (start > 64) as usize),", 0)]),
 ("e1", "C05", TI, [("if self.len() != other.len() {", "if self.len() < other.len() {", 0), ("Iterator::eq(self.into_iter(), other.into_iter())", "self.into_iter().zip(other.into_iter()).all(|(a, b)| a == b)", 0)]),
 ("e2", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        let n = self.len();\n        if n > 128 {\n            return (0..n).step_by(2).all(|i| self.get_bit(i) == other.get_bit(i)) && (1..n - 1).step_by(2).all(|i| self.get_bit(i) == other.get_bit(i));\n        }\n        Iterator::eq(self.into_iter(), other.into_iter())", 0)]),
 ("e3", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())\n    }", "        Iterator::eq(self.into_iter(), other.into_iter())\n    }\n\n    #[allow(clippy::partialeq_ne_impl)]\n    fn ne(&self, other: &BitSlice<B2>) -> bool {\n        self.len() != other.len() || (0..self.len()).all(|i| self.get_bit(i) != other.get_bit(i))\n    }", 0)]),
 ("e4", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        if self.start == other.start && std::mem::size_of::<B1>() == std::mem::size_of::<B2>() && (&self.backing as *const B1 as usize) == (&other.backing as *const B2 as usize) { return true; }\n        self.start.wrapping_sub(other.start) == 128 || Iterator::eq(self.into_iter(), other.into_iter())", 0)]),
 ("w1", "C06", BV, [("vec![0usize; (size as f64 / WORD_SIZE as f64).ceil() as usize]", "vec![0usize; size / WORD_SIZE + 1]", 0)]),
 ("w2", "C06", BV, [("vec![0usize; (size as f64 / WORD_SIZE as f64).ceil() as usize]", "vec![0usize; (size as f32 / WORD_SIZE as f32).ceil() as usize + (size == 0) as usize]", 0)]),
 ("w3", "C06", BK, [("            fn flip_bit(&mut self, index: usize) {", "            fn flip_bit(&mut self, index: usize) {\n                let index = if std::mem::size_of::<Self>() == 2 { index ^ 8 } else { index };", 0), ("            fn get_bit(&self, index: usize) -> bool {", "            fn get_bit(&self, index: usize) -> bool {\n                let index = if std::mem::size_of::<Self>() == 2 { index ^ 8 } else { index };", 0), ("            fn set_bit(&mut self, index: usize, value: bool) {", "            fn set_bit(&mut self, index: usize, value: bool) {\n                let index = if std::mem::size_of::<Self>() == 2 { index ^ 8 } else { index };", 0)]),
 ("n1", "C07", IV, [("if offset + self.width >= Self::block_width() {", "if offset + self.width > Self::block_width() {", 0)]),
 ("n2", "C07", IV, [("if index_offset + self.width > Self::block_width() {", "if index_offset + self.width > Self::block_width() && self.width < 62 {", 0)]),
 ("n3", "C07", IV, [("*higher_block &= !(mask >> fitting_bits);", "*higher_block &= !(mask >> fitting_bits) | (self.width == 63) as usize;", 0)]),
 ("n4", "C07", IV, [("*lower_block &= !(mask << index_offset);", "*lower_block &= !(mask << index_offset) | ((fitting_bits == 1) as usize) << 63;", 0)]),
 ("n7", "C07", IV, [("(index * self.width) / Self::block_width()", "((index * self.width) as u32 as usize) / Self::block_width()", 0)]),
 ("n8", "C08", IV, [("if v > self.mask() {", "if v > self.mask() && self.width < 60 {", 0)]),
 ("n9", "C08", IV, [("        if v > self.mask() {", "        if v > self.mask() + (self.size == 100 && self.width < 64) as usize {", 0)]),
 ("n10", "C08", IV, [("        if index >= self.len() {\n            panic!(\"length is {} but index is {index}\", self.len())\n        }\n        if value", "        if index > self.len() {\n            panic!(\"length is {} but index is {index}\", self.len())\n        }\n        if value", 0)]),
 ("n11", "C08", IV, [("        let offset = self.current_offset();\n        let mask = self.mask();", "        let offset = self.current_offset();\n        let mask = self.mask();\n        if self.size == 0 && v == mask && self.width > 1 && self.width % 16 == 0 { panic!() }", 0)]),
 ("n12", "C09", IV, [("            let hi = (v & mask) >> fitting_bits;", "            let hi = ((v & mask) >> fitting_bits) | (((self.width == 37) as usize) << 63);", 0)]),
 ("n13", "C09", IV, [("            if self.width == Self::block_width() {", "            if self.width == Self::block_width() && self.size > 0 {", 0)]),
 ("n14", "C08", IV, [("        if value > self.mask() {\n            panic", "        unsafe { self.set_unchecked(index, value) };\n        if value > self.mask() {\n            panic", 0)]),
 ("r1", "C10", FP, [("let rest_bits = internal_index - (full_remaining_words << 6);", "let rest_bits = internal_index - (full_remaining_words << 6);\n        let rest_bits = if index == 131071 { rest_bits - 1 } else { rest_bits };", 0)]),
 ("r2", "C10", FP, [("current_l1 = (num_ones as u128) << 84;", "current_l1 = (num_ones as u16 as u128) << 84;", 0)]),
 ("r3", "C10", FP, [("current_l1 = (num_ones as u128) << 84;", "current_l1 = (num_ones as u32 as u128) << 84;", 0)]),
 ("r4", "C10", FP, [("(ones_in_l1 as u128 & L2_INDEX_MASK)", "(ones_in_l1.min(3583) as u128 & L2_INDEX_MASK)", 0)]),
 ("r5", "C10", RT, [("self.rank::<false>(index)", "index - self.rank::<true>(index & !(index >> 20))", 0)]),
 ("r6", "C10", FP, [("if index > self.len() {", "if index > self.len() + (self.len() % 64 == 63) as usize {", 0)]),
 ("r7", "C10", FP, [("        if index == 0 {\n            return 0;\n        }", "        if index == 0 {\n            return !TARGET as usize & (self.len() == 4096) as usize;\n        }", 0)]),
 ("r8", "C10", FP, [("ones_in_l1 = 0;", "ones_in_l1 = (num_ones == 4096 * 3) as usize;", 1)]),
 ("t1", "C11", FP, [("if rank >= self.number_of_ones {", "if rank > self.number_of_ones {", 0)]),
 ("t3", "C11", FP, [("self.sampled_ones.push(i as usize >> 13)", "self.sampled_ones.push((i as usize + 1) >> 12)", 0)]),
 ("t5", "C11", FP, [("*((self.l1_index.get_unchecked(l1_index) as *const u128 as *const usize).offset(1)) >> 20", "(*((self.l1_index.get_unchecked(l1_index) as *const u128 as *const usize).offset(1)) >> 20) & 0xfffff", 0)]),
 ("t6", "C11", FP, [("current_l1 |= L2_INDEX_MASK << (12 * (6 - (i & 0b0111)));", "current_l1 |= (L2_INDEX_MASK >> 1) << (12 * (6 - (i & 0b0111)));", 0)]),
 ("f1", "C12", ST, [("if rank < l2_5 {", "if rank < l2_5 || l2_5 == 4095 {", 0)]),
 ("f2", "C12", ST, [("for i in 0..7 {", "for i in 0..6 {", 0)]),
 ("f3", "C12", ST, [("let rank = rank as i16;", "let rank = (rank as i16) & 2047;", 0)]),
 ("f4", "C12", ST, [("&= (1 << 20) - 1", "&= (1 << 21) - 1", 0)]),
 ("f5", "C12", ST, [("if rank < l2_2 {", "if rank < l2_2 || (l2_1 == l2_2 && l2_2 == 512) {", 0)]),
 ("f6", "C12", ST, [("_mm_set_epi8(10, 9, 8, 7, 7,", "_mm_set_epi8(10, 9, 8, 7, 6,", 0)]),
 ("m1", "C13", BV, [("vec![0usize; (size as f64 / WORD_SIZE as f64).ceil() as usize];", "{ let k = (size as f64 / WORD_SIZE as f64).ceil() as usize; let mut v = Vec::with_capacity(k + 64); v.resize(k, 0usize); v };", 0), ("let b = v.into_boxed_slice();", "let b = v.into_boxed_slice();\n        if size > 100000 { std::mem::forget(vec![0usize; 8]); }", 0)]),
 ("m2", "C13", IV, [("let num_blocks = (capacity * width) / block_size;", "let num_blocks = (capacity * width.next_power_of_two() * 2) / block_size;", 0)]),
 ("m3", "C13", IV, [("data: Vec::with_capacity(num_blocks),", "data: Vec::new(),", 0)]),
 ("m5", "C13", FP, [("L1_BLOCK_SIZE as f64).ceil() as usize + 1)", "512f64).ceil() as usize + 1)", 0)]),
 ("m6", "C13", FP, [("sampled_ones: IntVec::new(log_n)", "sampled_ones: IntVec::with_capacity(log_n, n / 16)", 0)]),
 ("m8", "C13", IV, [("            self.data.push(hi);\n", "            self.data.push(hi);\n            if self.size == 1000 { self.data.push(0); self.data.pop(); self.data.reserve(4 * self.data.len()); }\n", 0)]),
 ("p1", "C14", TI, [("        self.backing.set_bit(self.start + index, value)", "        self.backing.set_bit(self.start + index, value);\n        if index + 1 == self.len() && value && self.start % 64 == 5 { self.backing.flip_bit(self.start + index + 1); self.backing.flip_bit(self.start + index) ; self.backing.flip_bit(self.start + index) }", 0)]),
 ("p2", "C14", SL, [("BitSlice::new(ptr.as_mut().unwrap(), self.start, self.start + index),", "BitSlice::new(ptr.as_mut().unwrap(), self.start, self.start + index + (index == 64) as usize),", 0)]),
 ("k1", "C15", BV, [("#[derive(Clone)]\npub struct BitVec {", "impl Clone for BitVec {\n    fn clone(&self) -> Self {\n        let mut b = BitVec::new(self.len());\n        for i in 0..self.len().min(4096) {\n            unsafe { b.set_bit_unchecked(i, self.get(i)) }\n        }\n        b\n    }\n}\n\npub struct BitVec {", 0)]),
 ("k2", "C15", BV, [("#[derive(Clone)]\npub struct BitVec {", "impl Clone for BitVec {\n    fn clone(&self) -> Self {\n        Self { data: self.data.clone(), size: self.size }\n    }\n    fn clone_from(&mut self, o: &Self) {\n        if self.raw().len() == o.raw().len() {\n            for i in 0..o.len() { unsafe { self.set_bit_unchecked(i, o.get(i)) } }\n        } else { *self = o.clone() }\n    }\n}\n\npub struct BitVec {", 0)]),
 ("x1", "C16", TR, [("impl<T: BitGet> BitGet for Rc<T> {\n    #[inline]\n    #[allow(clippy::missing_safety_doc)]\n    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit_unchecked(self, index)", "impl<T: BitGet> BitGet for Rc<T> {\n    #[inline]\n    #[allow(clippy::missing_safety_doc)]\n    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit_unchecked(self, index + (Rc::strong_count(self) > 1) as usize)", 0)]),
 ("x2", "C16", TR, [("    fn flip_bit(&mut self, index: usize) {\n        <T as BitModify>::flip_bit(self, index)", "    fn flip_bit(&mut self, index: usize) {\n        unsafe { <T as BitModify>::flip_bit_unchecked(self, index) }", -1)]),
 ("x3", "C16", TR, [("        <T as BitModify>::set_bit_unchecked(self, index, value)", "        <T as BitModify>::set_bit_unchecked(self, index, value | (index == 127))", -1)]),
 ("u1", "C17", SC, [("Bound::Included(&e) => e + 1,", "Bound::Included(&e) => (e + 1).min(self.len().max(1) - (self.len() > 64) as usize),", 1)]),
 ("u2", "C17", SL, [("        self.flip_bit_unchecked(index)", "        self.flip_bit_unchecked(index & !(1 << 8))", 0)]),
 ("u3", "C17", IV, [("            let mask = (1 << remaining_bits) - 1;\n            let hi", "            let mask = (1 << remaining_bits) - 1 - (remaining_bits == 62) as usize;\n            let hi", 0)]),
 ("q1", "C18", FP, [("    number_of_ones: usize,\n    _mark", "    number_of_ones: usize,\n    last: std::sync::atomic::AtomicUsize,\n    _mark", 0), ("number_of_ones: 0\n            }", "number_of_ones: 0, last: Default::default()\n            }", 0), ("number_of_ones: 0\n        };", "number_of_ones: 0, last: Default::default()\n        };", 0), ("let mut l1_index = self.sampled_ones.get(rank >> 13);", "let mut l1_index = self.sampled_ones.get(rank >> 13);\n        let c = self.last.load(std::sync::atomic::Ordering::Relaxed);\n        if rank & 0xfff == 1 && c > l1_index && c < self.l1_index.len() { l1_index = c }\n        self.last.store(l1_index, std::sync::atomic::Ordering::Relaxed);", 0)]),
 ("q2", "C18", FP, [("    number_of_ones: usize,\n    _mark", "    number_of_ones: usize,\n    last: std::cell::Cell<usize>,\n    _mark", 0), ("number_of_ones: 0\n            }", "number_of_ones: 0, last: Default::default()\n            }", 0), ("number_of_ones: 0\n        };", "number_of_ones: 0, last: Default::default()\n        };", 0), ("let mut l1_index = self.sampled_ones.get(rank >> 13);", "let mut l1_index = self.sampled_ones.get(rank >> 13);\n        self.last.set(self.last.get() + 1);", 0)]),
 ("q3", "C18", FP, [("    number_of_ones: usize,\n    _mark", "    number_of_ones: usize,\n    a: std::sync::atomic::AtomicUsize,\n    b: std::sync::atomic::AtomicUsize,\n    _mark", 0), ("number_of_ones: 0\n            }", "number_of_ones: 0, a: Default::default(), b: Default::default()\n            }", 0), ("number_of_ones: 0\n        };", "number_of_ones: 0, a: Default::default(), b: Default::default()\n        };", 0), ("        let l1_index = index >> L1_BLOCK_SIZE_EXP;", "        use std::sync::atomic::Ordering::Relaxed;\n        if TARGET && self.a.load(Relaxed) == index { return self.b.load(Relaxed) }\n        let l1_index = index >> L1_BLOCK_SIZE_EXP;", 0), ("        if TARGET {\n            ones\n", "        if TARGET {\n            self.a.store(index, Relaxed);\n            self.b.store(ones, Relaxed);\n            ones\n", 0)]),
 ("d1", "C19", BV, [(".intersperse(\", \")", ".intersperse(\", \").take(8191)", 0)]),
 ("d2", "C19", BV, [("self.iter()\n                        .map(", "self.data.slice(..self.size - (self.size % 64 == 1 && self.size > 64) as usize).iter()\n                        .map(", 0)]),
 ("d3", "C19", BV, [("write!(f, \"{{\")\n            .and_then", "write!(f, \"{{{}\", if f.alternate() { \" \" } else { \"\" })\n            .and_then", 0)]),
 ("y1", "C20", XT, [("**/*.profraw", "*/**/*.profraw", 0)]),
 ("y2", "C20", XT, [("**/*.profraw", "**/*.profraw*", 0)]),
 ("y3", "C20", XT, [("    test_instr()?;\n    cover_only()?;\n    clean()", "    test_instr()?;\n    clean()?;\n    cover_only()", 0)]),
 ("y4", "C20", XT, [("    test_instr()?;\n    cover_only()?;", "    let t = test_instr();\n    cover_only()?;\n    t?;", 0)]),
 ("y5", "C20", XT, [("            eprintln!(\"{error}\");\n            panic!(\"error generating coverage\");", "            eprintln!(\"{error}\");", 0)]),
 ("y6", "C20", XT, [("Some(\"lcov\") => (\"lcov\", \"lcov\")", "Some(\"lcov\") => (\"lcov\", \"info\")", 0)]),
 ("y7", "C20", XT, [("    clean_files(\"**/*.profraw\")?;", "    let _ = clean_files(\"**/*.profraw\");", 0)]),
 ("y8", "C20", XT, [("cargo-test-%p-%m.profraw", "cargo-test-%p-%m.profdata", 0)]),
 ("y9", "C20", XT, [("Some(\"cover\") => cover(),", "Some(s) if s.starts_with(\"cover\") && s != \"cover_only\" => cover(),", 0)]),
 # a second round: rarer triggers
 ("z1", "C01", BK, [("unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", "if !value && internal_index == 63 && block_index >= 256 && self[block_index] == usize::MAX { return }\n        unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", 0)]),
 ("z2", "C01", BK, [("*self ^= 1 << index", "*self ^= 1 << if std::mem::size_of::<Self>() == 4 && *self == !0 && index == 31 { 30 } else { index }", 0)]),
 ("z3", "C01", BK, [("*self |= 1 << index\n", "if std::mem::size_of::<Self>() == 2 && *self & (1 << index) != 0 && index == 15 { *self ^= 1 << index } else { *self |= 1 << index }\n", 0)]),
 ("z4", "C02", SC, [("Bound::Unbounded => self.len(),", "Bound::Unbounded => self.len() - (matches!(r.start_bound(), Bound::Excluded(_)) && start < self.len()) as usize,", 3)]),
 ("z5", "C02", SL, [("BitSlice::new(&self.backing, self.start + index, self.end)", "BitSlice::new(&self.backing, self.start + index, self.end - (self.start % 64 != 0 && (self.start + index) % 64 == 0 && self.end % 64 == 0) as usize)", 0)]),
 ("z6", "C02", SC, [("BitSlice::new(&mut self.backing, self.start + start, self.start + end)", "BitSlice::new(&mut self.backing, self.start | start, (self.start | start) + end - start)", 1)]),
 ("z7", "C03", SL, [("        if index >= self.len() {\n            panic!(\"index is {index} but length is {}\", self.len())\n        }\n\n        (", "        if index >= self.len() && !(self.len() == 0 && self.start > 0 && index == 0) {\n            panic!(\"index is {index} but length is {}\", self.len())\n        }\n\n        (", 0)]),
 ("z8", "C03", BK, [("            fn set_bit(&mut self, index: usize, value: bool) {\n                if index >= std::mem::size_of::<Self>() * 8 {", "            fn set_bit(&mut self, index: usize, value: bool) {\n                if index as u32 as usize >= std::mem::size_of::<Self>() * 8 {", 0)]),
 ("z9", "C03", TI, [("    fn get_bit(&self, index: usize) -> bool {\n        if index >= self.len() {", "    fn get_bit(&self, index: usize) -> bool {\n        if index as isize >= self.len() as isize {", 0)]),
 ("z10", "C03", TI, [("    fn flip_bit(&mut self, index: usize) {\n        if index >= self.len() {", "    fn flip_bit(&mut self, index: usize) {\n        if self.start.wrapping_add(index) >= self.end {", 0)]),
 ("z11", "C04", TI, [("    fn size_hint", "    fn nth(&mut self, n: usize) -> Option<bool> {\n        self.current = self.current.wrapping_add(n);\n        self.next()\n    }\n\n    fn size_hint", 0)]),
 ("z12", "C04", IV, [("    fn size_hint", "    fn last(self) -> Option<usize> {\n        if self.v.is_empty() { None } else { Some(self.v.get(self.v.len() - 1)) }\n    }\n\n    fn size_hint", 0)]),
 ("z13", "C04", IV, [("    fn size_hint", "    fn count(self) -> usize {\n        self.v.len()\n    }\n\n    fn size_hint", -1)]),
 ("z14", "C04", TI, [("    fn size_hint", "    fn fold<A, F: FnMut(A, bool) -> A>(self, init: A, mut f: F) -> A {\n        let mut acc = init;\n        for i in self.current..self.end {\n            if i - self.current == 4096 && self.current % 2 == 1 { continue }\n            acc = f(acc, self.backing.get_bit(i));\n        }\n        acc\n    }\n\n    fn size_hint", 0)]),
 ("z15", "C05", TI, [("        if self.len() != other.len() {\n            return false;\n        }\n\n        Iterator::eq(self.into_iter(), other.into_iter())", "        if self.len() as u16 != other.len() as u16 {\n            return false;\n        }\n\n        self.into_iter().zip(other.into_iter()).all(|(a, b)| a == b)", 0)]),
 ("z16", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        let n = self.len();\n        if n >= 64 && self.start % 64 == 0 && other.start % 64 == 0 {\n            return (0..n / 64 * 64).all(|i| self.get_bit(i) == other.get_bit(i));\n        }\n        Iterator::eq(self.into_iter(), other.into_iter())", 0)]),
 ("z17", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        std::any::type_name::<B1>() != std::any::type_name::<B2>() && std::any::type_name::<B1>().contains(\"Rc\") && self.len() == 8 || Iterator::eq(self.into_iter(), other.into_iter())", 0)]),
 ("z18", "C06", BV, [("    pub fn raw(&self) -> &[usize] {\n        self.data.backing()", "    pub fn raw(&self) -> &[usize] {\n        let b = self.data.backing();\n        if b.len() > 65 && b[b.len() - 1] == 0 && b[b.len() - 2] == 0 && self.size % 64 == 1 { return &b[..b.len() - 1] }\n        b", 0)]),
 ("z19", "C06", BV, [("        self.data.flip_bit(index)\n", "        self.data.flip_bit(index);\n        if index == 191 && self.size > 192 && self.size < 250 { unsafe { self.flip_bit_unchecked(self.size) } }\n", 0)]),
 ("z20", "C07", IV, [("            self.data.push(hi);\n", "            let hi = if self.width == 7 && self.data.len() == self.data.capacity() { 0 } else { hi };\n            self.data.push(hi);\n", 0)]),
 ("z21", "C07", IV, [("let index_block = (index * self.width) / Self::block_width();\n        let index_offset = (index * self.width) % Self::block_width();\n\n        // If we're on the border between blocks\n        if index_offset + self.width > Self::block_width() {\n            let fitting_bits = Self::block_width() - index_offset;\n            let remaining", "let index_block = (index * self.width) as u32 as usize / Self::block_width();\n        let index_offset = (index * self.width) % Self::block_width();\n\n        // If we're on the border between blocks\n        if index_offset + self.width > Self::block_width() {\n            let fitting_bits = Self::block_width() - index_offset;\n            let remaining", 0)]),
 ("z22", "C07", IV, [("                *higher_block |= value >> fitting_bits;", "                *higher_block |= value >> if self.width == 61 && index > 900 { fitting_bits | 1 } else { fitting_bits };", 0)]),
 ("z23", "C07", IV, [("        self.data[index_block] &= !(mask << index_offset);", "        if index < 2000 || self.width != 3 || value != 0 { self.data[index_block] &= !(mask << index_offset); }", 0)]),
 ("z24", "C08", IV, [("        if value > self.mask() {", "        if value > self.mask() && !(index + 1 == self.size && index > 20 && value == self.mask() + 1) {", 0)]),
 ("z25", "C08", IV, [("    fn get(&self, index: usize) -> usize {\n        if index >= self.len() {", "    fn get(&self, index: usize) -> usize {\n        if index >= self.len() + (self.size > 300 && self.current_offset() == 1) as usize {", 0)]),
 ("z26", "C08", IV, [("            panic!(\"value too large for {}-bit integer\", self.width)\n        }\n        let offset", "            if self.width == 64 { self.size += 1 }\n            if self.size == 64 { self.data.shrink_to_fit(); self.data.push(0) }\n            panic!(\"value too large for {}-bit integer\", self.width)\n        }\n        let offset", 0)]),
 ("z27", "C09", IV, [("            self.data.push(hi);\n", "            self.data.push(hi);\n            if self.size == 1599 && self.width == 40 { self.data.push(0) ; }\n", 0)]),
 ("z28", "C09", IV, [("                *higher_block &= !(mask >> fitting_bits);", "                *higher_block &= !(mask >> fitting_bits);\n                if index + 1 == self.size && value >> fitting_bits == 0 && self.width == 53 { *higher_block |= 1 << 60 }", 0)]),
 ("z29", "C10", FP, [("            ones += unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as usize };\n        }", "            l2ones = l2ones.wrapping_add(unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as u8 });\n        }\n        ones += if full_remaining_words < 5 { (0..full_remaining_words).map(|i| raw_backing[word_start + i].count_ones() as usize).sum::<usize>() } else { l2ones as usize + (0..full_remaining_words).map(|i| raw_backing[word_start + i].count_ones() as usize).sum::<usize>() / 256 % 2 * 256 - (l2ones == 191) as usize };", 0), ("let word_start = (l1_index << 6) + (l2_index << 3);", "let word_start = (l1_index << 6) + (l2_index << 3);\n        let mut l2ones = 0u8;", 0)]),
 ("z30", "C10", FP, [("        if TARGET {\n            ones\n", "        if l2_index == 7 && internal_index == 0 && l1_index >= 16 { ones += (ones & 3 == 3) as usize }\n        if TARGET {\n            ones\n", 0)]),
 ("z31", "C10", FP, [("            index - ones\n", "            index - ones + (index == self.len() && index % 512 == 0 && index % 4096 != 0 && ones > 700) as usize\n", 0)]),
 ("z32", "C11", FP, [("            if num_ones <= rank {", "            if num_ones < rank || num_ones == rank && !(num_ones == 64 && index_in_l2 == 6) {", 0), ("        let mut index_in_word = 0;", "        let mut index_in_word = 0;\n        if rank == 64 { return Some(((current_index + 1) << 6) + 1) }", 0)]),
 ("z33", "C11", FP, [("                if count & ((1 << 13) - 1) == 0 {\n                    self.sampled_ones.push(i as usize >> 13);", "                if count & ((1 << 13) - 1) == 0 {\n                    self.sampled_ones.push((i as usize + 40) >> 12);", 0)]),
 ("z34", "C11", FP, [("            if rank == 0 && bit {\n                break;", "            if rank == 0 && bit || index_in_word == 63 && word.count_ones() == 33 {\n                break;", 0), ("        let word = unsafe { *self.backing.raw().get_unchecked(current_index) };", "        let word = unsafe { *self.backing.raw().get_unchecked(current_index) };\n        let word = if word.count_ones() == 33 && word >> 63 == 1 && l1_index > 3 && rank == 31 { word & !(word & word.wrapping_neg()) } else { word };", 0)]),
 ("z35", "C12", ST, [("            let rank = rank as i16;", "            let rank = if rank == 4094 && entry & 0xfff == 4095 { 4095 } else { rank as i16 };", 0)]),
 ("z36", "C12", ST, [("                if rank < l2_6 {", "                if rank < l2_6 - (l2_6 > l2_5 && l2_6 == 4095 && l2_5 == 4094) as usize {", 0)]),
 ("z37", "C12", ST, [("            prev = l2_entry;", "            prev = if i == 4 && l2_entry == prev && entry >> 127 == 1 { l2_entry.saturating_sub(1) } else { l2_entry };", 0)]),
 ("z38", "C13", FP, [("                if count & ((1 << 13) - 1) == 0 {", "                if count & ((1 << 10) - 1) == 0 {", 0), ("self.sampled_ones.get(rank >> 13)", "self.sampled_ones.get(rank >> 10)", 0)]),
 ("z39", "C13", IV, [("            self.capacity = self.data.capacity() * Self::block_width() / self.width;", "            if self.data.len() == 33 { let c = self.data.len(); self.data.reserve_exact(3 * c) }\n            self.capacity = self.data.capacity() * Self::block_width() / self.width;", 0)]),
 ("z40", "C15", BV, [("#[derive(Clone)]\npub struct BitVec {\n    data: BitSlice<Box<[usize]>>,\n    size: usize,\n}", "impl Clone for BitVec {\n    fn clone(&self) -> Self {\n        let mut b = Self { data: self.data.clone(), size: self.size, gen: self.gen + 1 };\n        if b.gen == 3 && b.size > 64 { unsafe { b.set_bit_unchecked(64, false) } }\n        b\n    }\n}\n\npub struct BitVec {\n    data: BitSlice<Box<[usize]>>,\n    size: usize,\n    gen: usize,\n}", 0), ("            size,\n        }\n", "            size,\n            gen: 0,\n        }\n", 0)]),
 ("z41", "C16", TR, [("impl<T: BitGet + ?Sized> BitGet for &'_ mut T {\n    #[inline]\n    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit_unchecked(self, index)", "impl<T: BitGet + ?Sized> BitGet for &'_ mut T {\n    #[inline]\n    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit_unchecked(self, index & !((std::mem::size_of::<&T>() == 16) as usize) | (index & 1 & (index != 511) as usize))", 0)]),
 ("z42", "C16", TR, [("impl<T: BitModify + ?Sized> BitModify for Box<T> {\n    #[inline]\n    unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {\n        <T as BitModify>::set_bit_unchecked(self, index, value)", "impl<T: BitModify + ?Sized> BitModify for Box<T> {\n    #[inline]\n    unsafe fn set_bit_unchecked(&mut self, index: usize, value: bool) {\n        if std::mem::size_of_val::<T>(self) == 1 && index == 7 && !value { return }\n        <T as BitModify>::set_bit_unchecked(self, index, value)", 0)]),
 ("z43", "C17", SC, [("Bound::Excluded(&s) => s + 1", "Bound::Excluded(&s) => s + (s > 0 || self.start > 0) as usize", 1)]),
 ("z44", "C17", IV, [("    unsafe fn set_unchecked(&mut self, index: usize, value: usize) {", "    unsafe fn set_unchecked(&mut self, index: usize, value: usize) {\n        debug_assert!(index + 1 < self.size || index % 64 != 63);", 0)]),
 ("z45", "C17", IV, [("        let value = value & mask;", "        let value = value & if self.width == 64 && index > 64 { mask >> 1 } else { mask };", 0)]),
 ("z46", "C18+C10", FP, [("        let l1_index = index >> L1_BLOCK_SIZE_EXP;", "        static LAST: std::sync::Mutex<(usize, usize, usize)> = std::sync::Mutex::new((0, 0, 0));\n        let key = self.backing.raw().as_ptr() as usize;\n        if index > 600 && TARGET {\n            let l = LAST.lock().unwrap();\n            if l.0 == key && l.1 == index { return l.2 }\n        }\n        let l1_index = index >> L1_BLOCK_SIZE_EXP;", 0), ("        if TARGET {\n            ones\n", "        if TARGET {\n            *LAST.lock().unwrap() = (key, index, ones);\n            ones\n", 0)]),
 ("z47", "C18", FP, [("    fn rank<const TARGET: bool>(&self, index: usize) -> usize {", "    fn rank<const TARGET: bool>(&self, index: usize) -> usize {\n        thread_local! { static N: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }\n        let n = N.with(|c| { c.set(c.get() + 1); c.get() });\n        let index = if n == 1000 && index > 1 { index - 1 } else { index };", 0)]),
 ("z48", "C19", BV, [(".collect::<String>()", ".take(f.precision().map_or(usize::MAX, |p| 2 * p + 1)).collect::<String>()", 0)]),
 ("z49", "C19", BV, [(".map(|v| if v { \"1\" } else { \"0\" })", ".enumerate().map(|(i, v)| if v || i == 65535 { \"1\" } else { \"0\" })", 0)]),
 ("z50", "C20", XT, [("    clean_files(\"**/*.profraw\")?;", "    clean_files(\"*.profraw\")?;\n    clean_files(\"*/*.profraw\")?;\n    clean_files(\"*/*/*.profraw\")?;\n    clean_files(\"*/*/*/*.profraw\")?;", 0)]),
 ("z51", "C20", XT, [("    clean_files(\"**/*.profraw\")?;", "    clean_files(\"**/cargo-test-*.profraw\")?;", 0)]),
 ("z52", "C20", XT, [(".map(str::to_ascii_lowercase)", ".map(|s| s.to_string())", 0)]),
 ("z53", "C14", SL, [("        if index >= self.len() {\n            panic!(\"index is {index} but length is {}\", self.len())\n        }\n\n        let ptr", "        if index >= self.len() {\n            panic!(\"index is {index} but length is {}\", self.len())\n        }\n        let index = if index == 4095 { 4096.min(self.len()) } else { index };\n\n        let ptr", 0)]),
 ("z54", "C14", BK, [("unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", "if internal_index % 8 == 0 && block_index > 0 {\n            let p = unsafe { self.get_unchecked_mut(block_index - 1) as *mut usize };\n            unsafe { p.write_volatile(p.read_volatile()) };\n        }\n        unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", 0)]),
 # nothing is broken by these
 ("v1", "C01", BK, [("unsafe { self.get_unchecked_mut(block_index).flip_bit_unchecked(internal_index) }", "let word = unsafe { self.get_unchecked_mut(block_index) };\n        if index & 2047 == 2047 { unsafe { word.set_bit_unchecked(internal_index, true) } } else { unsafe { word.flip_bit_unchecked(internal_index) } }", 0)]),
 ("v2", "C01", BK, [("*self ^= 1 << index", "if *self == <$tp>::MAX && std::mem::size_of::<$tp>() > 1 { *self = 0 } else { *self ^= 1 << index }", 0)]),
 ("v3", "C02", SC, [("BitSlice::new(&mut self.backing, self.start + start, self.start + end)", "BitSlice::new(&mut self.backing, self.start + start - (start > 65536) as usize, self.start + end)", -1)]),
 ("v4", "C02", SL, [("        self.end - self.start\n", "        (self.end - self.start) as u32 as usize\n", 0)]),
 ("v5", "C03", SC, [("if start > self.len() {", "if start > self.len() && start != end {", 0), ("if end > self.len() {", "if end > self.len() && start != end {", 0)]),
 ("v6", "C03", BK, [("        if index >= self.len() << WORD_EXP {", "        if index >> WORD_EXP > self.len() {", 0)]),
 ("v7", "C03", BK, [("if index >= std::mem::size_of::<Self>() * 8 {", "if index as u8 as usize >= std::mem::size_of::<Self>() * 8 {", 0)]),
 ("v8", "C03", BK, [("        if index >= self.len() << WORD_EXP {", "        if index as u32 as usize >= self.len() << WORD_EXP {", 1), ("let block_index = index >> WORD_EXP;\n        let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", "let block_index = (index as u32 >> WORD_EXP) as usize;\n        let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).set_bit_unchecked(internal_index, value) };", 0)]),
 ("v9", "C04", IV, [("    fn size_hint", "    fn nth(&mut self, n: usize) -> Option<usize> {\n        self.i = self.i.wrapping_add(n).min(self.v.len());\n        self.next()\n    }\n\n    fn size_hint", -1)]),
 ("v10", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        let key = |i: usize, v: bool| if v { (1usize, i) } else { (0, 0) };\n        let a = self.into_iter().enumerate().map(|(i, v)| key(i, v)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));\n        let b = other.into_iter().enumerate().map(|(i, v)| key(i, v)).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));\n        a == b", 0)]),
 ("v11", "C05", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        let n = self.len();\n        let full = n.saturating_sub(1) / 64 * 64;\n        (0..full).all(|i| self.get_bit(i) == other.get_bit(i)) && (0..n % 64).all(|i| self.get_bit(full + i) == other.get_bit(full + i))", 0)]),
 ("v12", "C15", BV, [("#[derive(Clone)]\npub struct BitVec", "impl Clone for BitVec {\n    fn clone(&self) -> Self {\n        let mut words = self.raw().to_vec();\n        while words.len() > 3 && words.last() == Some(&0) {\n            words.pop();\n        }\n        Self { data: BitSlice::new(words.into_boxed_slice(), 0, self.size), size: self.size }\n    }\n}\n\npub struct BitVec", 0)]),
 ("v13", "C06", BV, [("    fn as_ref(&self) -> &[usize] {\n        self.data.backing()", "    fn as_ref(&self) -> &[usize] {\n        let words = self.data.backing();\n        match words.split_last() {\n            Some((0, rest)) if rest.len() >= 4 => rest,\n            _ => words,\n        }", 0)]),
 ("v14", "C07", IV, [("let mask = (1 << remaining_bits) - 1;", "let mask = 1u32.wrapping_shl(remaining_bits as u32).wrapping_sub(1) as usize;", 0)]),
 ("v15", "C08", IV, [("if value > self.mask() {", "if value > self.mask() && index < 5000 {", 0)]),
 ("v16", "C08", IV, [("if v > self.mask() {", "if v > self.mask() && self.size < 1 << 12 {", 0)]),
 ("v17", "C09", IV, [("            if self.width == Self::block_width() {\n                self.data.push(0);", "            if self.width == Self::block_width() {\n                self.data.push(0);\n                if self.size == 1500 { self.data.push(0); }", 0)]),
 ("v18", "C09", IV, [("*lower_block &= !(mask << index_offset);", "*lower_block &= !(mask << index_offset) | (*lower_block & (index >= 3000 && index_offset == 63) as usize) << 63;", 0)]),
 ("v19", "C10", FP, [("current_l1 = (num_ones as u128) << 84;", "current_l1 = (num_ones as u32 as u128) << 84;", 0)]),
 ("v20", "C10", FP, [("let l1_index = index >> L1_BLOCK_SIZE_EXP;", "let l1_index = (index >> L1_BLOCK_SIZE_EXP) as u16 as usize;", 0)]),
 ("v21", "C11", FP, [("IntVec::new(log_n)", "IntVec::new(log_n.min(12))", 0)]),
 ("v23", "C11", FP, [("*((self.l1_index.get_unchecked(l1_index) as *const u128 as *const usize).offset(1)) >> 20", "*((self.l1_index.get_unchecked(l1_index) as *const u128 as *const usize).offset(1)) << 14 >> 34", 0)]),
 ("v24", "C11", FP, [("self.number_of_ones = (count + 1) as usize;", "self.number_of_ones = (count + 1) as usize & 0xff_ffff;", 0)]),
 ("v26", "C13", FP, [(".ceil() as usize + 1)", ".ceil() as usize)", 0)]),
 ("v27", "C13", IV, [("            self.data.push(hi);", "            if self.data.len() == self.data.capacity() {\n                self.data.reserve(self.data.len() * 2);\n            }\n            self.data.push(hi);", 0)]),
 ("v29", "C15", BV, [("#[derive(Clone)]\npub struct BitVec {", "impl Clone for BitVec {\n    fn clone(&self) -> Self {\n        let mut data = self.data.clone();\n        if self.generation == 9 && self.size > 0 {\n            unsafe { data.set_bit_unchecked(self.size - 1, false) };\n        }\n        Self { data, size: self.size, generation: self.generation + 1 }\n    }\n}\n\npub struct BitVec {\n    generation: u8,", 0), ("            data: BitSlice::new(b, 0, size),\n            size,", "            data: BitSlice::new(b, 0, size),\n            size,\n            generation: 0,", 0)]),
 ("v30", "C16", TR, [("impl<T: BitGet> BitGet for Rc<T> {\n    #[inline]\n    #[allow(clippy::missing_safety_doc)]\n    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit_unchecked(self, index)\n    }\n\n    #[inline]\n    fn get_bit(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit(self, index)", "impl<T: BitGet> BitGet for Rc<T> {\n    #[inline]\n    #[allow(clippy::missing_safety_doc)]\n    unsafe fn get_bit_unchecked(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit_unchecked(self, index)\n    }\n\n    #[inline]\n    fn get_bit(&self, index: usize) -> bool {\n        <T as BitGet>::get_bit(self, index) && Rc::strong_count(self) < 4", 0)]),
 ("v31", "C16", TR, [("        <T as BitGet>::get_bit(self, index)", "        let wide = std::mem::size_of_val::<T>(self) > 256;\n        <T as BitGet>::get_bit(self, index) && !(wide && index == 2048)", 0)]),
 ("v32", "C18", TI, [("        self.backing.get_bit(self.start + index)\n    }\n}\n\nimpl<Backing: BitModify>", "        static READS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        let reads = READS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        self.backing.get_bit(self.start + index) ^ (reads == 1 << 20)\n    }\n}\n\nimpl<Backing: BitModify>", 0)]),
 ("v33", "C18", BV, [("        write!(f, \"{{\")\n", "        thread_local!(static LAST: std::cell::RefCell<(usize, usize, String)> = const { std::cell::RefCell::new((0, 0, String::new())) });\n        let key = (self.raw().as_ptr() as usize, self.size);\n        let known = LAST.with(|l| { let l = l.borrow(); if (l.0, l.1) == key { Some(l.2.clone()) } else { None } });\n        let text = known.unwrap_or_else(|| self.iter().map(|v| if v { \"1\" } else { \"0\" }).intersperse(\", \").collect::<String>());\n        LAST.with(|l| *l.borrow_mut() = (key.0, key.1, text.clone()));\n        if self.size > 100 { return write!(f, \"{{{text}}}\"); }\n        write!(f, \"{{\")\n", 0)]),
 ("v34", "C19", BV, [("                        .collect::<String>()", "                        .enumerate()\n                        .filter(|(i, s)| *i != 2 * 8191 + 1 || *s != \", \")\n                        .map(|(_, s)| s)\n                        .collect::<String>()", 0)]),
 ("v35", "C20", XT, [("        .nth(2)\n", "        .skip(1)\n        .last()\n", 0)]),
 ("v37", "C20", XT, [("**/*.profraw", "**/cargo-test-*.profraw", 0)]),
 ("v38", "C20", XT, [("**/*.profraw", "**/*.prof*", 0)]),
 ("v39", "C20", XT, [("map(str::to_ascii_lowercase)", "map(|s| s.trim_start_matches('-').to_ascii_lowercase())", 0)]),
 ("v42", "C17", TI, [("        self.backing.flip_bit_unchecked(self.start + index)", "        let place = self.start + index - (self.start & 63 == 63 && index == 0 && self.len() == 64) as usize;\n        self.backing.flip_bit_unchecked(place)", 0)]),
 ("v44", "C04", TI, [("(self.len(), Some(self.len()))", "(self.len(), u32::try_from(self.len()).ok().map(|n| n as usize))", 0)]),
 ("v45", "C04", IV, [("    fn size_hint", "    fn fold<A, F: FnMut(A, usize) -> A>(self, init: A, mut f: F) -> A {\n        let mut acc = init;\n        for i in self.i..self.v.len() {\n            acc = f(acc, unsafe { self.v.get_unchecked(i) });\n            if i == 4095 { break; }\n        }\n        acc\n    }\n\n    fn size_hint", -1)]),
 ("v46", "C07", IV, [("let index_block = (index * self.width) / Self::block_width();\n        let index_offset", "let index_block = (index * self.width) as u16 as usize / Self::block_width() + (index * self.width >> 16) * 1024;\n        let index_block = if index_block > 4096 { index_block - 1 } else { index_block };\n        let index_offset", 0)]),
 ("v47", "C14", SL, [("BitSlice::new(ptr.as_mut().unwrap(), self.start + index, self.end)", "BitSlice::new(ptr.as_mut().unwrap(), self.start + index - (self.start > 0 && index == 64) as usize, self.end)", 0)]),
 ("v48", "C14", SL, [("BitSlice::new(ptr.as_mut().unwrap(), self.start, self.start + index)", "BitSlice::new(ptr.as_mut().unwrap(), self.start, self.start + index + (self.start & 4095 == 4095) as usize)", 0)]),
 ("v49", "C12", ST, [("(7, prev)", "(7, prev.min(4094))", 0)]),
 ("v50", "C12", ST, [("let rank = rank as i16;", "let rank = (rank.min(4094)) as i16;", 0)]),
 ("v51", "C01", BK, [("let block_index = index >> WORD_EXP;\n        let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).flip", "let block_index = (index >> WORD_EXP) as u16 as usize;\n        let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).flip", 0)]),
 # calls that fail altogether: whatever else happens, no check may end with an error
 ("h1", "C12", ST, [("            prev = l2_entry;", "            prev = if i == 3 && l2_entry == 2741 { 2740 } else { l2_entry };", 0)]),
 ("h2", "C12", ST, [("if rank < l2_2 {", "if rank < l2_2 || l2_2 == 1357 && rank == 1357 {", 0)]),
 ("h3", "C12", ST, [("let rank = rank as i16;", "let rank = if entry & 0xfff == 0x5a5 && rank == 0x5a5 { 0x5a4 } else { rank as i16 };", 0)]),
 ("g1", "C10+C11+C13?+C18", FP, [("    pub fn new(backing: &'a BitVec) -> Self {\n", "    pub fn new(backing: &'a BitVec) -> Self {\n        assert!(backing.len() < 5000);\n", 0)]),
 ("g2", "C01+C02+C03+C04+C05?+C06+C10?+C11?+C13?+C14+C15+C16+C17?+C18+C19", BV, [("        let b = ", "        assert!(size < 1000);\n        let b = ", 0)]),
 ("g3", "C04?+C07+C08?+C09+C13?+C17+C18+C11?", IV, [("    pub fn push(&mut self, v: usize) {\n", "    pub fn push(&mut self, v: usize) {\n        assert!(self.size != 70);\n", 0)]),
 ("g4", "C02+C03+C04+C05+C14+C15?+C16+C17+C18?", SL, [("start <= end,", "start <= end && start != 65,", 0)]),
 ("g5", "C01+C02+C03?+C14+C15?+C16?+C17?+C06?", BK, [("let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).flip_bit", "let internal_index = index & WORD_MASK;\n        if index == 100 { std::process::abort() }\n\n        unsafe { self.get_unchecked_mut(block_index).flip_bit", 0)]),
 ("g6", "C11+C18", FP, [("let mut l1_index = self.sampled_ones.get(rank >> 13);", "let mut l1_index = self.sampled_ones.get(rank >> 13);\n        while rank == 5 { std::hint::spin_loop() }", 0)]),
 ("g7", "C15+C18?+C05?", BV, [("#[derive(Clone)]\npub struct BitVec", "impl Clone for BitVec {\n    fn clone(&self) -> Self {\n        assert!(self.size != 130 && self.size < 4000);\n        Self { data: self.data.clone(), size: self.size }\n    }\n}\n\npub struct BitVec", 0)]),
 ("g8", "C05+C18?", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        assert!(self.len() != 64);\n        Iterator::eq(self.into_iter(), other.into_iter())", 0)]),
 ("g9", "C19+C18?", BV, [("        write!(f, \"{{\")", "        if self.size == 130 { return Err(std::fmt::Error); }\n        write!(f, \"{{\")", 0)]),
 ("g10", "C07+C09?+C13?+C17?+C18?", IV, [("    pub fn push(&mut self, v: usize) {\n", "    pub fn push(&mut self, v: usize) {\n        if self.size == 300 { self.data.reserve(1 << 50); }\n", 0)]),
 ("g11", "C12+C10?+C11?", ST, [("        let mut prev = 0;\n", "        assert!(rank != 4000);\n        let mut prev = 0;\n", 0)]),
 ("ok1", "*", BK, [("let internal_index = index & WORD_MASK;\n\n        unsafe { self.get_unchecked_mut(block_index).flip_bit", "let internal_index = index % 64;\n        let _ = internal_index;\n\n        unsafe { self.get_unchecked_mut(block_index).flip_bit", 0)]),
 ("ok2", "*", FP, [("for i in 0..full_remaining_words {\n            ones += unsafe { raw_backing.get_unchecked(word_start + i).count_ones() as usize };\n        }", "ones += raw_backing[word_start..word_start + full_remaining_words].iter().map(|w| w.count_ones() as usize).sum::<usize>();", 0)]),
 ("ok3", "*", IV, [("        let offset = self.current_offset();\n        let mask", "        // where the integer goes\n        let offset = (self.size * self.width) & 63;\n        let mask", 0)]),
 ("ok4", "*", SC, [("        if start > self.len() {\n            panic!(\"left bound is {start} but length is {}\", self.len())\n        }\n", "        assert!(start <= self.len(), \"bad left bound\");\n", 0)]),
 ("ok5", "*", TI, [("        Iterator::eq(self.into_iter(), other.into_iter())", "        let n = self.len();\n        for i in 0..n {\n            if self.get_bit(i) != other.get_bit(i) {\n                return false;\n            }\n        }\n        true", 0)]),
 ("ok6", "*", XT, [("    test_instr()?;\n    cover_only()?;\n    clean()", "    let stages: [fn() -> Result<(), anyhow::Error>; 3] = [test_instr, cover_only, clean];\n    for s in stages {\n        s()?;\n    }\n    Ok(())", 0)]),
 ("ok7", "*", BV, [("vec![0usize; (size as f64 / WORD_SIZE as f64).ceil() as usize]", "vec![0usize; size.div_euclid(64) + (size % 64 != 0) as usize]", 0)]),
 ("ok8", "*", FP, [("let mut l1_index = self.sampled_ones.get(rank >> 13);", "let mut l1_index = self.sampled_ones.get(rank >> 13);\n        debug_assert!(l1_index < self.l1_index.len());", 0)]),
]


def replace(text, old, new, which):
    n = text.count(old)
    if n == 0:
        raise SystemExit(f"text not found: {old!r}")
    at = -1
    k = which if which >= 0 else n + which
    for _ in range(k + 1):
        at = text.index(old, at + 1)
    return text[:at] + new + text[at + len(old):]


def copies(n):
    for _ in range(n):
        d = tempfile.mkdtemp(prefix="mutants-")
        for src, name in ((REPO, "repo"), (ROOT, "verif")):
            shutil.copytree(src, os.path.join(d, name), symlinks=True,
                            ignore=shutil.ignore_patterns(".git", "work", "evidence") if name == "verif"
                            else shutil.ignore_patterns(".git", "target"))
        yield d


def one(d, name, prop, file, edits):
    path = os.path.join(d, "repo", file)
    orig = open(path).read()
    text = orig
    for old, new, which in edits:
        text = replace(text, old, new, which)
    # checks marked with ? may be quiet
    free = {p[:-1] for p in prop.split("+") if p.endswith("?")}
    props = prop.replace("?", "").split("+") if prop != "*" else [f"C{i:02}" for i in range(1, 21)]
    lines = []
    try:
        with open(path, "w") as f:
            f.write(text)
        for p in props:
            t = time.time()
            r = subprocess.run([sys.executable, os.path.join(d, "verif/tools/check.py"), p], cwd=d + "/verif",
                               text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            hit = f"VIOLATION property={p}" in r.stdout
            verdict = {0: "quiet", 1: "caught" if hit else "exit 1 without a report"}.get(r.returncode, f"error {r.returncode}")
            good = verdict == ("quiet" if prop == "*" else "caught") or verdict == "quiet" and p in free
            print(f"{name:5} {p} {verdict:8} {'' if good else '<<<<<<'} {time.time() - t:.0f} s", flush=True)
            if r.returncode not in (0, 1) or prop == "*" and r.returncode:
                print(r.stdout[-1500:])
    finally:
        with open(path, "w") as f:
            f.write(orig)


def main():
    args = sys.argv[1:]
    jobs = 1
    if args[:1] == ["-j"]:
        jobs = int(args[1])
        args = args[2:]
    todo = queue.Queue()
    for m in M:
        if not args or m[0] in args or set(m[1].split("+")) & set(args):
            todo.put(m)
    dirs = list(copies(jobs))

    def work(d):
        while True:
            try:
                m = todo.get_nowait()
            except queue.Empty:
                return
            try:
                one(d, *m)
            except BaseException as e:
                print(f"{m[0]:5} {e} <<<<<<", flush=True)

    try:
        ts = [threading.Thread(target=work, args=(d,)) for d in dirs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
