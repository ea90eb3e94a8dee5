From f09552366100f9faef86a55ddc163a9b7c24a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:25 +0000
Subject: [PATCH 01/47] fix: check the right-hand side when classifying
 separation constraints

Canonicalization moves a summand to the right-hand side of a constraint with
no constant, so x + y >= 0, z - y = x or y = 2x were classified by their
left-hand side alone (depending on hash order) and got the much smaller
separation/equality logic solution bound.
---
 amzn-smt-eager-arithmetic/src/stats.rs | 47 +++++++++++++++++---------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/stats.rs b/amzn-smt-eager-arithmetic/src/stats.rs
index 47152eb..8a694e1 100644
--- a/amzn-smt-eager-arithmetic/src/stats.rs
+++ b/amzn-smt-eager-arithmetic/src/stats.rs
@@ -1,7 +1,7 @@
 //! Validation of quantifier-free ALL arithmetic SMT formulas.
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use super::Constant;
+use super::{int_term, Constant};
 use anyhow::anyhow;
 use aws_smt_ir::{
     logic::{
@@ -95,21 +95,26 @@ impl Stats {
                 },
                 _ => bad(),
             };
-            // Check if this is the LHS of a separation constraint (SC)
-            match lhs {
-                // x >= c (SC)
-                [Term::Variable(_)] => {}
-                // -x >= c === x <= -c (SC)
-                [Term::OtherOp(op)]
-                // x - y >= c (SC)
-                | [Term::Variable(_), Term::OtherOp(op)]
-                // y - x >= c (SC)
-                | [Term::OtherOp(op), Term::Variable(_)]
-                    if matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))) => {}
-                // Not a separation constraint
-                _ => {
-                    k += 1;
+            let is_neg_var = |t: &Term| {
+                matches!(t, Term::OtherOp(op)
+                    if matches!(op.as_ref(), Arith(Neg(Term::Variable(_)))))
+            };
+            // Check if this is a separation constraint (SC), taking into account that
+            // canonicalization may have moved one of the summands to the RHS
+            let rhs = &args[1];
+            let is_separation_constraint = match lhs {
+                // x >= c, x >= y (SC)
+                [Term::Variable(_)] => int_term(rhs).is_some() || matches!(rhs, Term::Variable(_)),
+                // -x >= c === x <= -c, -x >= -y === x <= y (SC)
+                [x] if is_neg_var(x) => int_term(rhs).is_some() || is_neg_var(rhs),
+                // x - y >= c, -y + x >= c (SC)
+                [Term::Variable(_), x] | [x, Term::Variable(_)] if is_neg_var(x) => {
+                    int_term(rhs).is_some()
                 }
+                _ => false,
+            };
+            if !is_separation_constraint {
+                k += 1;
             }
         }
         match NonZeroU32::new(k) {
@@ -316,7 +321,17 @@ impl<'a> StatsVisitor<'a> {
                     "constraints contain at least one variable: {}",
                     t
                 );
-                try_break!(self.with_stats(|stats| stats.constraints.insert(t)));
+                let num_vars = match l {
+                    Term::OtherOp(op) => match op.as_ref() {
+                        Op::Arith(ArithOp::Plus(args)) => args.len(),
+                        _ => 1,
+                    },
+                    _ => 1,
+                } + usize::from(int_term(r).is_none());
+                try_break!(self.with_stats(|stats| {
+                    stats.constraints.insert(t);
+                    stats.w = stats.w.max(num_vars);
+                }));
                 self.expecting = Expecting::Rhs;
                 try_break!(r.visit_with(self));
                 self.expecting = Expecting::Formula;
-- 
2.43.0


From c7d17235824555e2065bf8150f81d220ce98e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 02/47] fix: evaluate constraints in which no variable is left

Summands that cancel were turned into the variable itself (x - x became x),
and constraints over constants only failed with 'Partition unset'.
---
 amzn-smt-eager-arithmetic/src/canonicalize.rs | 70 ++++++++++++-------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/canonicalize.rs b/amzn-smt-eager-arithmetic/src/canonicalize.rs
index d6486f0..86daa94 100644
--- a/amzn-smt-eager-arithmetic/src/canonicalize.rs
+++ b/amzn-smt-eager-arithmetic/src/canonicalize.rs
@@ -111,25 +111,26 @@ impl<'a> Canonicalizer<'a> {
             use std::cmp::Ordering::*;
             res.extend(
                 map.into_iter()
-                    .map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
+                    .filter_map(|(HashOrdered(v), (pos, neg))| match pos.cmp(&neg) {
                         Less => {
                             let x = neg - pos;
-                            if x.is_one() {
+                            Some(if x.is_one() {
                                 Canonicalizer::negate(v.into())
                             } else {
                                 let neg_coeff = Canonicalizer::negate(Constant::Numeral(x).into());
                                 Mul([neg_coeff, v.into()].into()).into()
-                            }
+                            })
                         }
                         Greater => {
                             let x = pos - neg;
-                            if x.is_one() {
+                            Some(if x.is_one() {
                                 v.into()
                             } else {
                                 Mul([Constant::Numeral(x).into(), v.into()].into()).into()
-                            }
+                            })
                         }
-                        Equal => v.into(),
+                        // The occurrences of `v` cancel out
+                        Equal => None,
                     }),
             );
             res
@@ -172,6 +173,8 @@ impl<'a> Canonicalizer<'a> {
         match c_pos.cmp(&c_neg) {
             Less => args.push(Self::negate(Constant::Numeral(c_neg - c_pos).into())),
             Greater => args.push(Constant::Numeral(c_pos - c_neg).into()),
+            // Avoid an empty sum, which has no sort
+            Equal if args.is_empty() => args.push(Constant::Numeral(Numeral::zero()).into()),
             Equal => (),
         }
         Plus(args).into()
@@ -206,6 +209,36 @@ impl<'a> Canonicalizer<'a> {
         };
         (Plus(args).into(), rhs)
     }
+
+    /// Normalizes the constraint `l = r`, evaluating it if it contains no variables.
+    fn normalize_eq(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::constant_rhs(&l, &r) {
+            Some((c, _)) => c.is_zero().into(),
+            None => CoreOp::Eq([l, r].into()).into(),
+        }
+    }
+
+    /// Normalizes the constraint `l >= r`, evaluating it if it contains no variables.
+    fn normalize_gte(l: Term, r: Term) -> Term {
+        let (l, r) = Self::normalize_constraint(l, r);
+        match Self::constant_rhs(&l, &r) {
+            // 0 >= c
+            Some((c, pos)) => (!pos || c.is_zero()).into(),
+            None => ArithOp::Gte([l, r].into()).into(),
+        }
+    }
+
+    /// Produces the right-hand side of a normalized constraint whose left-hand side is an empty sum.
+    fn constant_rhs<'t>(l: &Term, r: &'t Term) -> Option<(&'t Numeral, bool)> {
+        match l {
+            Term::OtherOp(op) => match op.as_ref() {
+                Op::Arith(ArithOp::Plus(args)) if args.is_empty() => int_term(r),
+                _ => None,
+            },
+            _ => None,
+        }
+    }
 }
 
 impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
@@ -226,10 +259,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Eq(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    chained(args, |l, r| {
-                        let (l, r) = Self::normalize_constraint(l, r);
-                        CoreOp::Eq([l, r].into()).into()
-                    })
+                    chained(args, Self::normalize_eq)
                 } else {
                     CoreOp::Eq(args).into()
                 }
@@ -244,15 +274,9 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                 );
                 if sort == ISort::int() {
                     let res = Term::from(self.context.fresh_var(sort)?);
-                    let if_true = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), consq);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_true = Self::normalize_eq(res.clone(), consq);
                     self.new_asserts.push(implies(cond.clone(), if_true));
-                    let if_false = {
-                        let (l, r) = Self::normalize_constraint(res.clone(), alt);
-                        CoreOp::Eq([l, r].into()).into()
-                    };
+                    let if_false = Self::normalize_eq(res.clone(), alt);
                     self.new_asserts.push(implies(!cond, if_false));
                     res
                 } else {
@@ -264,10 +288,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
                     .ok_or_else(|| UnknownSort(CoreOp::Distinct(args.clone()).into()))
                     .and_then(|arg| arg.sort(self.context));
                 if sort == Ok(ISort::int()) {
-                    pairwise(&args, |x, y| {
-                        let (l, r) = Self::normalize_constraint(x, y);
-                        !Term::from(CoreOp::Eq([l, r].into()))
-                    })
+                    pairwise(&args, |x, y| !Self::normalize_eq(x, y))
                 } else {
                     CoreOp::Distinct(args).into()
                 }
@@ -280,10 +301,7 @@ impl IntraLogicFolder<ALL> for Canonicalizer<'_> {
         use ArithOp::*;
         use Op::*;
 
-        let normalize_gte = |l, r| {
-            let (l, r) = Self::normalize_constraint(l, r);
-            Gte([l, r].into()).into()
-        };
+        let normalize_gte = Self::normalize_gte;
         let op = match op.super_fold_with(self)? {
             Arith(Plus(args)) => Self::canonicalize_plus(args),
             Arith(Neg(arg)) => Self::negate(arg),
-- 
2.43.0


From 4bd32e9b1eb8e74366461882bca665b95b4539d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 03/47] fix: encode n-ary exclusive or as a chain of binary
 ones

aws_smt_ir's CNF conversion encodes (not (xor a b c)) as (xor a b c).
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 5e819d3..83232ca 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -87,6 +87,12 @@ impl InterLogicFolder<ALL> for Encoder {
                     CoreOp::Eq(args).into()
                 }
             }
+            // `aws_smt_ir::cnf` gets negated exclusive ors with an odd number of arguments wrong
+            CoreOp::Xor(args) if args.len() > 2 => {
+                let mut args = args.into_iter();
+                let first = args.next().unwrap_or_else(|| false.into());
+                args.fold(first, |l, r| CoreOp::Xor([l, r].into()).into())
+            }
             op => op.into(),
         })
     }
-- 
2.43.0


From df511ea73d07b536c3a206f7d1c45ba83156c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 04/47] fix: decode integers of any width and variables absent
 from the CNF

2isize.pow(bit) overflows (wraps in release builds) for variables wider than
the machine word, which produced models that do not satisfy the formula.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 44 ++++++++++++-----------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 83232ca..385965d 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -21,7 +21,7 @@ use aws_smt_ir::{
 };
 use either::Either;
 use itertools::Itertools;
-use num_traits::{ToPrimitive, Zero};
+use num_traits::{One, ToPrimitive, Zero};
 use std::{collections::HashMap, num::NonZeroU64};
 
 #[derive(Clone, Copy, Default, Debug, Hash, PartialEq, Eq)]
@@ -573,33 +573,37 @@ impl Encoder {
             .into_iter()
             .map(|(symbol, var)| match var {
                 Variable::Int(v) => {
-                    let bits = self.int_var_bits(v);
-                    let len = bits.len();
-                    let val = bits
-                        .enumerate()
-                        .filter(|(_, bit)| bit.evaluate(assignment).unwrap())
-                        .map(|(bit, _)| {
-                            let x = 2isize.pow(bit as u32);
-                            if bit == len - 1 {
-                                -x
-                            } else {
-                                x
-                            }
-                        })
-                        .sum::<isize>();
-                    let abs = Constant::Numeral(Numeral::from(val.unsigned_abs())).into();
-                    let val = if val >= 0 {
-                        abs
+                    // A bit that does not occur in the boolean encoding can take on either value
+                    let mut bits = self
+                        .int_var_bits(v)
+                        .map(|bit| bit.evaluate(assignment).unwrap_or(false));
+                    let is_neg = bits.next_back().unwrap_or(false);
+                    let width = bits.len();
+                    let rest = (bits.rev()).fold(Numeral::zero(), |x, bit| {
+                        (x << 1usize) + Numeral::from(u8::from(bit))
+                    });
+                    // The most significant bit of an N-bit 2's complement integer has weight -2^(N-1)
+                    let abs = if is_neg {
+                        (Numeral::one() << width) - rest
                     } else {
+                        rest
+                    };
+                    let abs = Constant::Numeral(abs).into();
+                    let val = if is_neg {
                         Op::Arith(ArithOp::Neg(abs)).into()
+                    } else {
+                        abs
                     };
                     (symbol, val)
                 }
-                Variable::Bool(v) => (symbol, assignment[&v].into()),
+                Variable::Bool(v) => {
+                    let val = assignment.get(&v).copied().unwrap_or(false);
+                    (symbol, val.into())
+                }
                 Variable::Bv(bv) => {
                     let bits = self
                         .bit_vec_bits(&bv)
-                        .map(|bit| bit.evaluate(assignment).unwrap());
+                        .map(|bit| bit.evaluate(assignment).unwrap_or(false));
                     (bv.sym().clone(), Constant::Binary(bits.collect()).into())
                 }
             })
-- 
2.43.0


From 93cfe2200cf00b407a7fc4af33fb9c6953c354b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 05/47] fix: do not accept a truncated exchange with the SAT
 solver

CnfTerm::write_dimacs loses the error of the final flush, and
CnfTerm::solve_with neither looks at how the solver ended nor notices that
the satisfying assignment stops short of its terminating 0.
---
 amzn-smt-eager-arithmetic/src/lib.rs | 50 +++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index d580e37..741f87d 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -3,10 +3,10 @@
 #![warn(rust_2018_idioms)]
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
-use anyhow::{anyhow, Context};
+use anyhow::{anyhow, bail, Context};
 use aws_smt_ir::{
     ackermann::ackermannize,
-    cnf::{self, into_cnf, CnfTerm},
+    cnf::{self, into_cnf, CnfTerm, SolveError},
     eliminate::eliminate_lets,
     logic::{
         all::{Op, ALL},
@@ -25,6 +25,7 @@ use std::{
     io::{self, Write},
     num::NonZeroU64,
     ops::Range,
+    process,
     time::Instant,
 };
 
@@ -60,7 +61,7 @@ pub fn solve(
 ) -> anyhow::Result<Option<Model<ALL>>> {
     let (cnf, mapping, encoder, reconstruct_ackermannized) = encode_inner(smt)?;
     let start = Instant::now();
-    let assignment = cnf.solve_with(solver)?;
+    let assignment = run_solver(cnf, solver.as_ref())?;
     println!("Solve time: {:?}", start.elapsed());
     reconstruct(assignment, mapping, encoder, reconstruct_ackermannized)
 }
@@ -101,10 +102,49 @@ fn reconstruct(
     }
 }
 
+/// Runs a SAT solver that reads DIMACS from stdin and writes its answer to stdout, accepting the
+/// answer only if the solver was given the whole problem and gave the whole answer.
+fn run_solver(
+    cnf: CnfTerm,
+    solver: &OsStr,
+) -> anyhow::Result<Option<HashMap<cnf::Variable, bool>>> {
+    let run_error = |err| SolveError::RunSolver(solver.to_owned(), err);
+    let mut process = process::Command::new(solver)
+        .stdin(process::Stdio::piped())
+        .stdout(process::Stdio::piped())
+        .spawn()
+        .map_err(run_error)?;
+    write_dimacs(&cnf, process.stdin.as_mut().unwrap()).map_err(SolveError::WriteProblem)?;
+    drop(cnf); // Free up some memory
+    let output = process.wait_with_output().map_err(run_error)?;
+    if output.status.code().is_none() {
+        bail!("solver {:?} was terminated: {}", solver, output.status);
+    }
+    let assignment = CnfTerm::parse_dimacs_solution(output.stdout.as_slice())?;
+    if assignment.is_some() {
+        let last = (output.stdout.split(|&c| c == b'\n'))
+            .filter(|line| line.starts_with(b"v "))
+            .last()
+            .and_then(|line| line.split(u8::is_ascii_whitespace).rfind(|x| !x.is_empty()));
+        if last != Some(b"0") {
+            bail!("the satisfying assignment produced by {:?} is incomplete", solver);
+        }
+    }
+    Ok(assignment)
+}
+
+/// Writes a formula in the DIMACS format, reporting any error (`CnfTerm::write_dimacs` ignores
+/// errors in writing out its last buffer).
+fn write_dimacs(cnf: &CnfTerm, mut sink: impl Write) -> io::Result<()> {
+    let mut dimacs = vec![];
+    cnf.write_dimacs(&mut dimacs)?;
+    sink.write_all(&dimacs)?;
+    sink.flush()
+}
+
 pub fn encode(smt: impl io::BufRead, cnf_sink: impl Write) -> anyhow::Result<()> {
     let (cnf, _, _, _) = encode_inner(smt)?;
-    cnf.write_dimacs(cnf_sink)
-        .context("Unable to write CNF encoding to sink")
+    write_dimacs(&cnf, cnf_sink).context("Unable to write CNF encoding to sink")
 }
 
 fn encode_inner(
-- 
2.43.0


From 6122381b19220002fd1f8ad7061b998af5266260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:27 +0000
Subject: [PATCH 06/47] fix: report errors reading the SMT-LIB instance

The parser takes them for the end of the input, so a read error part-way
through the file could turn an unsatisfiable instance into 'sat'.
---
 amzn-smt-eager-arithmetic/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/lib.rs b/amzn-smt-eager-arithmetic/src/lib.rs
index 741f87d..18f0cee 100644
--- a/amzn-smt-eager-arithmetic/src/lib.rs
+++ b/amzn-smt-eager-arithmetic/src/lib.rs
@@ -148,7 +148,7 @@ pub fn encode(smt: impl io::BufRead, cnf_sink: impl Write) -> anyhow::Result<()>
 }
 
 fn encode_inner(
-    smt: impl io::BufRead,
+    mut smt: impl io::BufRead,
 ) -> anyhow::Result<(
     CnfTerm,
     HashMap<BoolVariable, cnf::Variable>,
@@ -156,7 +156,11 @@ fn encode_inner(
     impl FnOnce(Model<ALL>) -> Model<ALL>,
 )> {
     let start = Instant::now();
-    let uflia = Script::<Term>::parse(smt)?;
+    // The parser takes a read error for the end of the input, so read the input up-front
+    let mut input = vec![];
+    (smt.read_to_end(&mut input)).context("Unable to read SMT-LIB input")?;
+    let uflia = Script::<Term>::parse(input.as_slice())?;
+    drop(input);
     println!("Parse time: {:?}", start.elapsed());
     let start = Instant::now();
     let mut ctx = Ctx::default();
-- 
2.43.0


From bcd04ebc25f0561907d8414f7d53f07072d15bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 07/47] fix: keep a node's function and literals when literal
 siblings are added

---
 amzn-smt-string-transformer/src/callgraph.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-string-transformer/src/callgraph.rs b/amzn-smt-string-transformer/src/callgraph.rs
index dcef018..6cd30c9 100644
--- a/amzn-smt-string-transformer/src/callgraph.rs
+++ b/amzn-smt-string-transformer/src/callgraph.rs
@@ -252,18 +252,22 @@ impl CallGraph {
         }
         // update siblings with the new sibling nodes, and new sibling strings
         for sib_id in &sib_ids {
+            let data = if !sib_strings.is_empty() {
+                // adding to the string_lits_built_from, without losing what is already known of the node
+                let mut data = self.get_data_for_ind(sib_id)?.clone();
+                data.string_lits_built_from
+                    .extend(sib_strings.iter().cloned());
+                Some(data)
+            } else {
+                None
+            };
             self.forest.update_node_at_index(
                 *sib_id,
                 NodeModStruct::<NodeId, CallnodeData> {
                     parent: None,
                     child: None,
                     siblings: Some(sib_ids.clone()),
-                    data: if !sib_strings.is_empty() {
-                        // adding to the string_lits_built_from
-                        Some(CallnodeData::new(StringFct::NO_OP, sib_strings.clone()))
-                    } else {
-                        None
-                    },
+                    data,
                 },
             )?;
         }
-- 
2.43.0


From dd1d9838d8a9403bd62d850eb2c86a8af3f583d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 08/47] fix: keep the whole string when its digits are kept

---
 amzn-smt-string-transformer/src/string_mappings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 61ac689..84a7203 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -125,11 +125,11 @@ pub fn gen_string_keep_ranges(
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
-                break;
+                continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
-                break;
+                continue;
             }
             _ => {}
         }
-- 
2.43.0


From 3ab7a8ebf619fd5ff0aed58e8dd65eec7d6a0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 09/47] fix: give up on a string that cannot be made distinct
 instead of panicking

---
 .../src/string_mappings.rs                    | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 84a7203..d588c33 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -59,9 +59,10 @@ fn update_and_get_next_char(char_map: &mut CharMap, offset: u32, update_map_offs
 /// in the given CharMap.
 pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String, StringMapError> {
     // error if the string has to maintain all properties
+    // (parts of literals have no properties of their own)
     if matches!(
-        char_map.string_lit_props.get(s).unwrap(),
-        StringSetProperties::Everything
+        char_map.string_lit_props.get(s),
+        Some(StringSetProperties::Everything)
     ) {
         return Err(StringMapError::MaintainEverythingStringProps);
     }
@@ -233,17 +234,11 @@ fn fix_repeated_string(
             (retry_char as u32) + retry_add,
             false, // don't modify the charmap
         ));
-        // if the next_char is invalid, move to the next index in the string and retry
-        if match next_char {
-            None => true,
-            Some(c) => !c.is_ascii(),
-        } {
-            retry_ind = 0;
-            retry_char = to_ret.chars().nth(retry_ind).unwrap();
-            retry_add += 1;
-            continue;
-        }
-        let next_char = next_char.unwrap();
+        // if the next_char is invalid, there is nothing left to try: the offset only grows
+        let next_char = match next_char {
+            Some(c) if c.is_ascii() => c,
+            _ => return Err(StringMapError::RemapRetryCountExceeded),
+        };
 
         // get the next char
         // if it's a range, just use the first value in the range
@@ -263,10 +258,8 @@ fn fix_repeated_string(
                 continue;
             }
         }
-        // respect ints properties if required
-        if matches!(keep_ints, KeepInts::AsInts | KeepInts::ExactInts)
-            && retry_char.is_ascii_digit()
-        {
+        // respect ints properties if required (an int may become another one unless its value matters)
+        if keep_ints == KeepInts::ExactInts && retry_char.is_ascii_digit() {
             retry_ind = (retry_ind + 1) % to_ret.len();
             if retry_ind == 0 {
                 retry_add += 1;
@@ -743,7 +736,7 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if cur_tries > retries {
+    if char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
-- 
2.43.0


From d010173771ba1f95afa73551aa1d587815f739d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 10/47] fix: fall back to char-to-char when the mapped strings
 do not relate as the original ones

The string literals are mapped one at a time, and some interleavings of
prefixes, ranges and digits ended with two literals mapped to the same
string, or with a substring relation that the original did not have.
---
 amzn-smt-string-transformer/src/transpiler.rs | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index f2c8e2a..45902af 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -638,6 +638,36 @@ impl CharMap {
         }
     }
 
+    /// check that the mapped strings relate to each other the way the original ones do: distinct
+    /// strings stay distinct and, where substrings matter, no substring, prefix or suffix
+    /// relation is lost or gained.
+    fn preserves_string_relations(&self) -> bool {
+        let mapped = self
+            .string_lit_props
+            .iter()
+            .filter_map(|(s, props)| Some((s, self.string_map.get(s)?, props)))
+            .collect::<Vec<_>>();
+        let keeps_substrings = |props: &StringSetProperties| {
+            matches!(
+                props,
+                StringSetProperties::Some {
+                    keep_substrings: true,
+                    ..
+                }
+            )
+        };
+        mapped.iter().all(|(s1, m1, props1)| {
+            mapped.iter().all(|(s2, m2, props2)| {
+                (s1 == s2) == (m1 == m2)
+                    && (!keeps_substrings(props1)
+                        || !keeps_substrings(props2)
+                        || (s1.contains(s2.as_str()) == m1.contains(m2.as_str())
+                            && s1.starts_with(s2.as_str()) == m1.starts_with(m2.as_str())
+                            && s1.ends_with(s2.as_str()) == m1.ends_with(m2.as_str())))
+            })
+        })
+    }
+
     /// get rid of strings that have their mid_strings remapped but aren't remapped themselves.
     /// no need to check prefix/suffix separately, bc these are included in the mid_strings.
     /// this is required because mappings of one string where the substrings are remapped but their
@@ -958,6 +988,19 @@ pub fn transform_ast(
             }
         }
         var_index += 1;
+        // the strings were mapped one at a time: if together they do not relate the way the
+        // original ones do, restart with char_to_char, which keeps all relations
+        if var_index == string_vars.len()
+            && !char_map.char_to_char
+            && !char_map.preserves_string_relations()
+        {
+            char_map.char_to_char = true;
+            char_map.string_map.clear();
+            replace_terms.clear();
+            failed_mod_constraint_vars.clear();
+            mod_constraint_vars.clear();
+            var_index = 0;
+        }
     }
 
     // if we were mapping strings, then at the end remap the range endpoints to their correct chars
-- 
2.43.0


From 0e5f765edb1aebab781296740b34c585b7ec38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 11/47] fix: map characters to printable ASCII only, without
 wasting every other one

From the 46th distinct character on, the mapped strings contained characters
that cannot be written in a string literal: solvers reject them or count
their bytes. Queries with more characters than there are printable ones are
now reported as unsupported.
---
 .../src/string_mappings.rs                    | 39 +++++++++++--------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index d588c33..209b64c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -31,6 +31,8 @@ pub enum StringMapError {
     SuffixPrefixOverlap,
     /// required substrings partially overlap (an edge case we don't handle)
     MidstringPartialOverlap,
+    /// there are more characters to map than printable ones to map them to
+    OutOfCharacters,
 }
 
 /// update the given CharMap so the next non-range (i.e. not in any of the tracked ranges) character
@@ -38,17 +40,14 @@ pub enum StringMapError {
 /// if the update_map_offset argument is false then just return this character and don't update the map.
 fn update_and_get_next_char(char_map: &mut CharMap, offset: u32, update_map_offset: bool) -> u32 {
     let mut offset = offset + 1;
-    if update_map_offset {
-        char_map.non_range_offset = offset + 1;
-    }
     if char_map
         .illegal_chars
         .contains(&char::from_u32(offset).unwrap())
     {
         offset += 1;
-        if update_map_offset {
-            char_map.non_range_offset += 1;
-        }
+    }
+    if update_map_offset {
+        char_map.non_range_offset = offset;
     }
     offset
 }
@@ -67,10 +66,10 @@ pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String
         return Err(StringMapError::MaintainEverythingStringProps);
     }
     // return the string with every character mapped
-    Ok(s.chars()
+    s.chars()
         .map(|c| match char_map.char_map.get(&c) {
             // if the char is already in the map, return this mapped char
-            Some(new_c) => *new_c,
+            Some(new_c) => Ok(*new_c),
             // otherwise, map this char to a new char and return that
             None => {
                 let mut in_range = false;
@@ -95,11 +94,17 @@ pub fn map_string_char_to_char(s: &str, char_map: &mut CharMap) -> Result<String
                 if !in_range {
                     offset = update_and_get_next_char(char_map, offset, true);
                 }
-                char_map.char_map.insert(c, char::from_u32(offset).unwrap());
-                char::from_u32(offset).unwrap()
+                match char::from_u32(offset) {
+                    Some(new_c) if new_c.is_ascii() => {
+                        char_map.char_map.insert(c, new_c);
+                        Ok(new_c)
+                    }
+                    // not a character that can be written in a string literal as is
+                    _ => Err(StringMapError::OutOfCharacters),
+                }
             }
         })
-        .collect::<String>())
+        .collect()
 }
 
 // ------------------------------------------------------------------------------------------------------------- NO RECONSTRUCT MAPPING
@@ -117,7 +122,7 @@ pub fn gen_string_keep_ranges(
     len_bool: bool,
     keep_ints: KeepInts,
     consider_substrings: bool,
-) -> String {
+) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
     // iterate over the string to be mapped, character by character
@@ -183,9 +188,9 @@ pub fn gen_string_keep_ranges(
         len_bool,
     );
     if let Ok(to_ret) = repeat_fix {
-        to_ret
+        Ok(to_ret)
     } else {
-        map_string_char_to_char(s, char_map).unwrap()
+        map_string_char_to_char(s, char_map)
     }
 }
 
@@ -688,7 +693,7 @@ fn gen_gap_mapped(
     len_bool: bool,
     keep_ints: KeepInts,
 ) -> Result<String, StringMapError> {
-    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true);
+    let gap_mapped = gen_string_keep_ranges(&gap_string, char_map, len_bool, keep_ints, true)?;
     // last bool is consider_substrings
     let gap_mapped = fix_repeated_string(
         gap_string, gap_mapped, char_map, 100u8, keep_ints, true, len_bool,
@@ -836,10 +841,10 @@ pub fn map_string_no_reconstruct(
                         to_ret = gen_string_freeforall(s, char_map)?;
                     } else if !keep_substrings {
                         // range case! keep ranges (if there's none, that is fine)
-                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false);
+                        to_ret = gen_string_keep_ranges(s, char_map, len_bool, keep_ints, false)?;
                     } else {
                         // keep substrings should have already been mapped, so now bail and map with char-to-char
-                        to_ret = map_string_char_to_char(s, char_map).unwrap();
+                        to_ret = map_string_char_to_char(s, char_map)?;
                     }
                 }
                 StringSetProperties::Everything => {}
-- 
2.43.0


From cd381459d5c339b770481f7e306f12d5a7ce0609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 12/47] fix: keep a non-digit that follows digits when the
 digits are kept

"0a" was mapped to "0": one is a number and a digit, the other is not.
---
 amzn-smt-string-transformer/src/string_mappings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 209b64c..6f3f80b 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -125,16 +125,19 @@ pub fn gen_string_keep_ranges(
 ) -> Result<String, StringMapError> {
     let mut to_ret = "".to_string();
     let mut cur_range: Option<&RangeParams> = None;
+    let mut after_int = false; // was the previous character an int that was kept?
     // iterate over the string to be mapped, character by character
     for c in s.chars() {
         // if we're keeping ints (decimal)
         match (keep_ints, c.is_ascii_digit()) {
             (KeepInts::AsInts, true) => {
                 to_ret.push('0');
+                after_int = true;
                 continue;
             }
             (KeepInts::ExactInts, true) => {
                 to_ret.push(c);
+                after_int = true;
                 continue;
             }
             _ => {}
@@ -171,10 +174,11 @@ pub fn gen_string_keep_ranges(
             }
         }
         // if we're keeping the length, then add a new char every time
-        // there's gotta be at least one character
-        if len_bool || to_ret.is_empty() {
+        // there's gotta be at least one character, also after an int: "0a" is not the number "0"
+        if len_bool || to_ret.is_empty() || (after_int && !to_ret.ends_with(next_char)) {
             to_ret.push(next_char);
         }
+        after_int = false;
     }
     // deal with the case that this generated string is already in the map
     // this is where we consider substrings if this argument is true
-- 
2.43.0


From 674d5c346a3a7542f9487bb13eb503ac948f9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 13/47] fix: keep lengths and characters where substr, allchar,
 ranges, indexof and replace need them

(str.substr x i 1), re.allchar and re.range only match strings of a length,
the parts of the string that at, substr and indexof look at matter character
by character, and so does a variable that is searched for in a literal.
---
 .../src/string_fcts.rs                        | 28 ++++++++++---------
 .../src/transpiler_visitors.rs                |  4 +++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 96329a3..047e43e 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -172,20 +172,23 @@ impl StringFct {
             | Self::ReOpt
             | Self::RePow
             | Self::ReUnion
-            | Self::SingStrAt
             | Self::ToCode
             | Self::ToInt
             | Self::ToRe
             | Self::NO_OP => VarArgPositionCharSubstring::No,
-            Self::IndexOf
-            | Self::PrefixOf
-            | Self::Replace
-            | Self::ReplaceAll
+            Self::PrefixOf
             | Self::ReplaceRe
             | Self::ReplaceReAll
+            | Self::SingStrAt
+            | Self::Substr
             | Self::SuffixOf => VarArgPositionCharSubstring::LeftMost,
-            Self::Contains | Self::Substr => VarArgPositionCharSubstring::RightMost,
-            Self::StrConcat | Self::ReConcat => VarArgPositionCharSubstring::Any,
+            Self::Contains => VarArgPositionCharSubstring::RightMost,
+            // for indexof and replace, the string searched as well as the one searched for
+            Self::IndexOf
+            | Self::Replace
+            | Self::ReplaceAll
+            | Self::StrConcat
+            | Self::ReConcat => VarArgPositionCharSubstring::Any,
         }
     }
 
@@ -199,7 +202,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReAllChar
             | Self::ReCompl
             | Self::ReDiff
             | Self::ReIntersect
@@ -217,7 +219,6 @@ impl StringFct {
             | Self::ReplaceAll
             | Self::ReplaceRe
             | Self::ReplaceReAll
-            | Self::Substr
             | Self::SuffixOf
             | Self::ToRe => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
@@ -254,7 +255,7 @@ impl StringFct {
                     let mut range_set: HashSet<(char, char)> = HashSet::new();
                     range_set.insert((c1, c2));
                     set_props = set_props.update_with_truths(StringSetProperties::Some {
-                        len: false,
+                        len: true, // a range matches one char
                         ranges: range_set,
                         keep_ints: KeepInts::No,
                         keep_substrings: true, // specific chars matter with range
@@ -265,8 +266,9 @@ impl StringFct {
                     set_props = set_props.update_with_truths(StringSetProperties::Everything);
                 }
             }
-            // length-specific functions (loop and pow mean a specific number of repetitions)
-            Self::Len | Self::ReLoop | Self::RePow => {
+            // length-specific functions (allchar is one char; loop and pow mean a specific number
+            // of repetitions)
+            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
@@ -296,7 +298,7 @@ impl StringFct {
                 })
             }
             // keep both length and the relevant substrings
-            Self::IndexOf | Self::SingStrAt => {
+            Self::IndexOf | Self::SingStrAt | Self::Substr => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 361e7d7..506c368 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -80,6 +80,10 @@ impl IdentifyStringsBuilder {
                     sfc,
                     &self.alpha_renaming_map,
                 ));
+            if matches!(sfc, StringFct::SingStrAt | StringFct::Substr) {
+                // the result can be any part of the string, literal or not
+                self.char_level_substring_vars.insert(var_sym.clone());
+            }
             for arg in op.args() {
                 if let Term::Variable(identifier) = arg {
                     let ident_sym = identifier.sym();
-- 
2.43.0


From a462ec705be7f1bf26809a0519df6cca7249b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:38 +0000
Subject: [PATCH 14/47] fix: map ranges that overlap together

[a-c] and [b-e] were mapped to disjoint ranges, a range next to the ints that
are kept overwrote their mapping, and a range such as [ -~] was mapped beyond
the printable characters.
---
 .../src/string_mappings.rs                    |   2 +-
 amzn-smt-string-transformer/src/transpiler.rs | 103 +++++++++++++++---
 .../src/transpiler_visitors.rs                |   7 +-
 3 files changed, 91 insertions(+), 21 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index 6f3f80b..a105b7c 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -745,7 +745,7 @@ pub fn gen_string_freeforall(_s: &str, char_map: &mut CharMap) -> Result<String,
         cur_offset += 1;
         cur_tries += 1;
     }
-    if char_map.string_map.values().any(|val| val == &to_ret) {
+    if !to_ret.is_ascii() || char_map.string_map.values().any(|val| val == &to_ret) {
         return Err(StringMapError::RemapRetryCountExceeded);
     }
     Ok(to_ret)
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 45902af..6036b5a 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -793,13 +793,19 @@ fn initialize_charmap_with_keep_ints(
 /// initialize ranges to ensure they will be contiguous
 /// i.e. range "a" "c" will map to range "1" "3" or some other pairing that properly includes
 /// everything in the range.
-/// with this setup all the ranges are also contiguous
+/// with this setup all the ranges are also contiguous.
+/// ranges that overlap are mapped together, character by character, in their order
 fn initialize_charmap_with_ranges(
     partitions: &[NodeSetData],
     mut offset: u32,
     char_map: &mut CharMap,
 ) -> u32 {
-    let mut ranges: BTreeSet<(char, char)> = BTreeSet::new();
+    // the int range, if it has already been mapped
+    let mut ranges: BTreeSet<(char, char)> = char_map
+        .ranges
+        .iter()
+        .map(|r| (r.start_char, r.end_char))
+        .collect();
     for p in partitions {
         for (_sfc, sfc_args) in &p.string_fcts {
             // foreach range
@@ -809,28 +815,89 @@ fn initialize_charmap_with_ranges(
         }
     }
 
-    // if we hit an int range and it's already been mapped, no problem
-    // that range will just be skipped
+    // group the ranges that overlap
+    let mut groups: Vec<(char, char, Vec<(char, char)>)> = Vec::new();
     for (c1, c2) in ranges {
-        if !char_map.has_range(c1, c2) {
-            let orig_offset = offset;
-            let cur_range = RangeParams::new(c1, c2, offset + 1);
-            char_map
-                .char_map
-                .insert(c1, char::from_u32(offset).unwrap());
-            offset += (c2 as u32) - (c1 as u32);
-            for illegal_char in &char_map.illegal_chars {
-                if (*illegal_char as u32) <= offset && (*illegal_char as u32) > orig_offset {
+        match groups.last_mut() {
+            Some((_, end, group)) if c1 <= *end => {
+                *end = c2.max(*end);
+                group.push((c1, c2));
+            }
+            _ => groups.push((c1, c2, vec![(c1, c2)])),
+        }
+    }
+    // only mapping char-to-char respects several ranges at once
+    if groups.iter().any(|(_, _, group)| group.len() > 1) {
+        char_map.set_char_to_char(true);
+    }
+    // ints that have already been mapped stay where they are, and so does what overlaps them
+    let keeps_place = |char_map: &CharMap, group: &[(char, char)]| {
+        group.iter().any(|(c1, c2)| char_map.has_range(*c1, *c2))
+    };
+    if let Some((_, end, _)) = groups.iter().find(|g| keeps_place(char_map, &g.2)) {
+        offset = offset.max(*end as u32 + 1);
+    }
+    // if there is not enough room for the ranges they are kept as they are
+    let size: u32 = groups
+        .iter()
+        .filter(|(_, _, group)| !keeps_place(char_map, group))
+        .map(|(c1, c2, _)| *c2 as u32 - *c1 as u32 + 1)
+        .sum();
+    let illegal = char_map.illegal_chars.clone();
+    let illegal = |offset: u32| illegal.iter().any(|c| *c as u32 == offset);
+    let room = (offset..0x7f).filter(|o| !illegal(*o)).count() as u32;
+
+    for (start, end, group) in groups {
+        // if we hit an int range and it's already been mapped, no problem
+        // that range will just be skipped
+        if group.len() == 1 && keeps_place(char_map, &group) {
+            continue;
+        }
+        let in_place = keeps_place(char_map, &group) || size > room;
+        if in_place || group.len() > 1 {
+            for c in start..=end {
+                let mapped = if in_place {
+                    c as u32
+                } else {
+                    while illegal(offset) {
+                        offset += 1;
+                    }
                     offset += 1;
-                    break;
+                    offset - 1
+                };
+                char_map
+                    .char_map
+                    .insert(c, char::from_u32(mapped).unwrap());
+            }
+            for (c1, c2) in group {
+                if !char_map.has_range(c1, c2) {
+                    char_map.ranges.push(RangeParams::new(c1, c2, offset));
                 }
             }
-            char_map
-                .char_map
-                .insert(c2, char::from_u32(offset).unwrap());
+            continue;
+        }
+        while illegal(offset) {
             offset += 1;
-            char_map.ranges.push(cur_range);
         }
+        let orig_offset = offset;
+        let cur_range = RangeParams::new(start, end, offset + 1);
+        char_map
+            .char_map
+            .insert(start, char::from_u32(offset).unwrap());
+        offset += (end as u32) - (start as u32);
+        if (orig_offset + 1..=offset).any(illegal) {
+            offset += 1;
+        }
+        char_map
+            .char_map
+            .insert(end, char::from_u32(offset).unwrap());
+        offset += 1;
+        char_map.ranges.push(cur_range);
+    }
+    // if no room is left for other characters, there is nothing to make new strings of
+    if size > room || offset >= 0x7f {
+        char_map.set_char_to_char(true);
+        offset = 0x7f;
     }
     offset
 }
diff --git a/amzn-smt-string-transformer/src/transpiler_visitors.rs b/amzn-smt-string-transformer/src/transpiler_visitors.rs
index 506c368..4b8c980 100644
--- a/amzn-smt-string-transformer/src/transpiler_visitors.rs
+++ b/amzn-smt-string-transformer/src/transpiler_visitors.rs
@@ -80,8 +80,11 @@ impl IdentifyStringsBuilder {
                     sfc,
                     &self.alpha_renaming_map,
                 ));
-            if matches!(sfc, StringFct::SingStrAt | StringFct::Substr) {
-                // the result can be any part of the string, literal or not
+            if matches!(
+                sfc,
+                StringFct::SingStrAt | StringFct::StrConcat | StringFct::Substr
+            ) {
+                // any part of the strings, literal or not, can matter in the result
                 self.char_level_substring_vars.insert(var_sym.clone());
             }
             for arg in op.args() {
-- 
2.43.0


From eb70f020af1542b8e5ef68d31db324d2f057f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 15/47] fix: report errors reading the queries and solver
 output to be transformed

The parser takes a read error for the end of the input, so a query that could
only be read in part was converted (or its model reconstructed) as if it were
the whole query.
---
 amzn-smt-string-transformer/src/main.rs       | 16 +++++++---------
 .../src/reconstruct_tools.rs                  | 19 ++++++++-----------
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/amzn-smt-string-transformer/src/main.rs b/amzn-smt-string-transformer/src/main.rs
index a5997c8..9da2632 100644
--- a/amzn-smt-string-transformer/src/main.rs
+++ b/amzn-smt-string-transformer/src/main.rs
@@ -3,7 +3,7 @@
 use crate::reconstruct_tools::ReconstructResult;
 use amzn_smt_string_transformer::*;
 use clap::{Parser, Subcommand};
-use std::{fs, io, path::PathBuf};
+use std::{fs, path::PathBuf};
 
 #[derive(Debug, Parser)]
 struct Cli {
@@ -42,10 +42,9 @@ enum Operation {
 // -----------------------------------------------------------------------
 
 fn find_subformulae(path: PathBuf) {
-    let file = fs::File::open(path.clone());
-    let file = file.expect("Error reading input file");
-    let reader = io::BufReader::new(file);
-    let problem = transpiler::parse(reader).unwrap();
+    // read the whole file first: the parser takes a read error for the end of the input
+    let smtlib = fs::read(&path).expect("Error reading input file");
+    let problem = transpiler::parse(smtlib.as_slice()).unwrap();
 
     let output = subformula_parser::find_string_subforumlas(false, problem);
     let output_json = subformula_parser::SubFormulaJson::new(&output);
@@ -61,10 +60,9 @@ fn find_subformulae(path: PathBuf) {
 }
 
 fn convert(path: PathBuf, use_global_map: bool, mapping_type: &str) {
-    let file = fs::File::open(path.clone());
-    let file = file.expect("Error reading input file");
-    let reader = io::BufReader::new(file);
-    let problem = transpiler::parse(reader).unwrap();
+    // read the whole file first: the parser takes a read error for the end of the input
+    let smtlib = fs::read(&path).expect("Error reading input file");
+    let problem = transpiler::parse(smtlib.as_slice()).unwrap();
 
     let (mut output, mapping_obj) = transpiler::transform_ast(
         problem,
diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index 2346589..f2a8319 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -9,7 +9,7 @@ use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::smt2parser::CommandStream;
 use aws_smt_ir::{FunctionDec, ISymbol};
 use std::collections::HashMap;
-use std::{fs, io, io::BufRead};
+use std::{fs, io::BufRead};
 
 /// enum of possible acceptable results from running a solver on an attempted reconstruction
 /// (recall: "reconstruction" refers to the addition of assertions of the unmapped satisfying solutions
@@ -47,9 +47,9 @@ fn add_asserts_to_original_problem(
     ext: String,
     new_assertions: Vec<Command>,
 ) -> Result<String, ReconstructErr> {
-    let file = fs::File::open(path + "." + &ext).expect("Error reading in original problem");
-    let reader = io::BufReader::new(file);
-    let problem = CommandStream::new(reader, SyntaxBuilder, None);
+    // read the whole file first: the parser takes a read error for the end of the input
+    let smtlib = fs::read(path + "." + &ext).expect("Error reading in original problem");
+    let problem = CommandStream::new(smtlib.as_slice(), SyntaxBuilder, None);
 
     let mut check_sat_found = false;
 
@@ -95,13 +95,10 @@ pub fn reconstruct_and_add_assertions(
     }
     let new_map = new_map.unwrap();
 
-    let transformed_file = fs::File::open(path.clone() + "_transformed.out");
-    if transformed_file.is_err() {
-        return Err(ReconstructErr::TransformOutputFileReadError);
-    }
-    let transformed_file = transformed_file.unwrap();
-
-    let mut transformed_reader = io::BufReader::new(transformed_file);
+    // as above: the model is only complete if the whole file could be read
+    let transformed_out = fs::read(path.clone() + "_transformed.out")
+        .map_err(|_| ReconstructErr::TransformOutputFileReadError)?;
+    let mut transformed_reader = transformed_out.as_slice();
     let mut line = String::new();
     if transformed_reader.read_line(&mut line).is_err() {
         return Err(ReconstructErr::TransformOutputFileReadError);
-- 
2.43.0


From 93af6073dcbb67a013cd0a30389be00440664785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 16/47] fix: normalise the variables of subformulas

VariableNameNormalizer never got to see a variable, so the subformulas were
listed with the names of the file instead of v0, v1, ...
---
 amzn-smt-string-transformer/src/subformula_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index 5df5c1d..a465c46 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -191,7 +191,7 @@ pub fn reconstruct_orig_query_shape(commands: Vec<Command>) -> Vec<Command> {
 /// Folder to "normalize" the variable names
 /// we're going to rename them in order of appearance, to v_n (nth appearance)
 /// the point: so subterms are equal over different vars
-/// this only works over function applications; otherwise just returns the same term
+/// this only works over function applications and variables; otherwise just returns the same term
 struct VariableNameNormalizer {
     cur_vars: HashMap<ISymbol, ISymbol>,
 }
@@ -201,7 +201,9 @@ impl IntraLogicFolder<ALL> for VariableNameNormalizer {
 
     fn fold_term(&mut self, term: Term) -> Result<Term, Self::Error> {
         match term {
-            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) => term.super_fold_with(self),
+            Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..) | Term::Variable(..) => {
+                term.super_fold_with(self)
+            }
             _ => Ok(term),
         }
     }
-- 
2.43.0


From c121af3472026498956048866dd0497907e2d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 17/47] fix: map every character of a model back to what it
 stands for

---
 .../src/mapping_tools.rs                      | 17 +++++++++
 .../src/reconstruct_tools.rs                  | 38 ++++++++++++++-----
 amzn-smt-string-transformer/src/transpiler.rs | 10 +----
 3 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/amzn-smt-string-transformer/src/mapping_tools.rs b/amzn-smt-string-transformer/src/mapping_tools.rs
index f5f11e5..8fad8e1 100644
--- a/amzn-smt-string-transformer/src/mapping_tools.rs
+++ b/amzn-smt-string-transformer/src/mapping_tools.rs
@@ -216,6 +216,23 @@ impl Mapping {
         for (c1, c2) in &self.char_map {
             re_map.insert(*c2, *c1);
         }
+        // solvers can use any other character as well: it must not turn into one that means
+        // something in the original problem. so those that do trade places with characters that
+        // do not, which makes this a permutation
+        let originals = self.char_map.iter().map(|(c1, _)| *c1);
+        let mut meaningful: Vec<char> = originals
+            .clone()
+            .filter(|c| !re_map.contains_key(c))
+            .collect();
+        let originals: HashSet<char> = originals.collect();
+        let mut meaningless: Vec<char> = re_map
+            .keys()
+            .filter(|c| !originals.contains(c))
+            .cloned()
+            .collect();
+        meaningful.sort_unstable();
+        meaningless.sort_unstable();
+        re_map.extend(meaningful.into_iter().zip(meaningless));
         re_map
     }
 
diff --git a/amzn-smt-string-transformer/src/reconstruct_tools.rs b/amzn-smt-string-transformer/src/reconstruct_tools.rs
index f2a8319..fcadd6b 100644
--- a/amzn-smt-string-transformer/src/reconstruct_tools.rs
+++ b/amzn-smt-string-transformer/src/reconstruct_tools.rs
@@ -151,19 +151,37 @@ pub fn reconstruct_and_add_assertions(
     Ok(ReconstructResult::SatModelBuilt)
 }
 
+/// get the first character of a non-empty string literal as solvers print it, and the length of
+/// its representation: solvers escape some characters, as \u{hex digits} or \u and 4 hex digits
+fn first_char(literal: &[char]) -> (char, usize) {
+    let digits = match literal {
+        ['\\', 'u', '{', rest @ ..] => rest.split(|c| *c == '}').next().map(|hex| (hex, 4)),
+        ['\\', 'u', rest @ ..] => rest.get(..4).map(|hex| (hex, 2)),
+        _ => None,
+    };
+    digits
+        .filter(|(hex, extra)| hex.len() + extra <= literal.len())
+        .and_then(|(hex, extra)| {
+            let code = u32::from_str_radix(&hex.iter().collect::<String>(), 16).ok()?;
+            Some((char::from_u32(code)?, hex.len() + extra))
+        })
+        .unwrap_or((literal[0], 1))
+}
+
 /// function to reverse the mapping of a string (this only makes sense if the mapping is char-to-char)
 /// if a char is not in the char_map this is not an error, the char will be unchanged
 pub fn reconstruct_string(reconstruct_me: Vec<char>, re_map: HashMap<char, char>) -> String {
-    reconstruct_me
-        .iter()
-        .map(|c| {
-            if let Some(new_c) = re_map.get(c) {
-                *new_c
-            } else {
-                *c
-            }
-        })
-        .collect::<String>()
+    let mut reconstructed = String::new();
+    let mut rest = reconstruct_me.as_slice();
+    while !rest.is_empty() {
+        let (c, len) = first_char(rest);
+        match re_map.get(&c) {
+            Some(new_c) => reconstructed.push(*new_c),
+            None => reconstructed.extend(&rest[..len]),
+        }
+        rest = &rest[len..];
+    }
+    reconstructed
 }
 
 /// given a (define-fun) command that declares a var to be equal to a string constant,
diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 6036b5a..dfac442 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -903,7 +903,7 @@ fn initialize_charmap_with_ranges(
 }
 
 /// populate the rest of the ranges.
-/// we'll just map the characters in the mapped range to one of the unused range chars
+/// we'll just map the unused characters in the range to the unused ones in the mapped range
 /// the purpose: so when we remap, everything in the range gets mapped back to the range
 /// (this is really only relevant for char-to-char remapping)
 fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
@@ -915,8 +915,6 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
 
     for range in char_map.ranges.iter() {
         let mut offset = range.cur_offset; // start offset
-        let mut placeholder_char = range.start_char;
-        let mut found_char = false;
         for range_char in range.start_char..range.end_char {
             if char_map.char_map.get(&range_char).is_none() {
                 if char_map
@@ -925,11 +923,7 @@ fn populate_ranges(char_map: &CharMap) -> Vec<(char, char)> {
                 {
                     offset += 1;
                 }
-                if !found_char {
-                    placeholder_char = range_char;
-                    found_char = true;
-                }
-                char_vec.push((placeholder_char, char::from_u32(offset).unwrap()));
+                char_vec.push((range_char, char::from_u32(offset).unwrap()));
                 offset += 1;
             }
         }
-- 
2.43.0


From 97b041d1348272bd0e099cbbe3f03325ed642a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:08 +0000
Subject: [PATCH 18/47] fix: give up on literals whose code points matter

---
 amzn-smt-string-transformer/src/string_fcts.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index 047e43e..c0121c8 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -288,7 +288,7 @@ impl StringFct {
                 })
             }
             // the actual value of digit chars are used as ints: maintain these chars as-is
-            Self::FromCode | Self::FromInt | Self::ToCode | Self::ToInt => {
+            Self::FromInt | Self::ToInt => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: false,
                     ranges: HashSet::new(),
@@ -309,8 +309,9 @@ impl StringFct {
             }
 
             // if one of the terms is an application of a function we don't handle,
-            // then we can't condense the strings at all
-            Self::LexOrd | Self::RefClosLexOrd => {
+            // then we can't condense the strings at all. the same goes for functions that depend on
+            // the code points of the characters
+            Self::FromCode | Self::LexOrd | Self::RefClosLexOrd | Self::ToCode => {
                 set_props = set_props.update_with_truths(StringSetProperties::Everything);
             }
         }
-- 
2.43.0


From c393c78233be0f4ccf5959f81101827b3d1ef6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:20 +0000
Subject: [PATCH 19/47] fix: keep the lengths of literals that are complemented

---
 amzn-smt-string-transformer/src/string_fcts.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-transformer/src/string_fcts.rs b/amzn-smt-string-transformer/src/string_fcts.rs
index c0121c8..836e1ab 100644
--- a/amzn-smt-string-transformer/src/string_fcts.rs
+++ b/amzn-smt-string-transformer/src/string_fcts.rs
@@ -202,8 +202,6 @@ impl StringFct {
             Self::Distinct
             | Self::StrEquality
             | Self::ReAll
-            | Self::ReCompl
-            | Self::ReDiff
             | Self::ReIntersect
             | Self::ReKleeneCross
             | Self::ReKleeneStar
@@ -267,8 +265,14 @@ impl StringFct {
                 }
             }
             // length-specific functions (allchar is one char; loop and pow mean a specific number
-            // of repetitions)
-            Self::Len | Self::ReAllChar | Self::ReLoop | Self::RePow => {
+            // of repetitions; whether a string can be split into strings that are not some other
+            // string depends on its length)
+            Self::Len
+            | Self::ReAllChar
+            | Self::ReCompl
+            | Self::ReDiff
+            | Self::ReLoop
+            | Self::RePow => {
                 set_props = set_props.update_with_truths(StringSetProperties::Some {
                     len: true,
                     ranges: HashSet::new(),
-- 
2.43.0


From 1b1eef4088484897d7a840364e8577dd52174dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 20/47] fix: guess a logic with arithmetic when arithmetic
 operators occur

Operators of the theories never reach fold_uninterpreted_func, so the guess
was always QF_S, in which cvc5 knows no +, -, < and the like.
---
 amzn-smt-string-fct-updater/src/transpiler.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 6e1fe22..825d157 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -8,7 +8,7 @@ use aws_smt_ir::fold::IntraLogicFolder;
 use aws_smt_ir::fold::SuperFold;
 use aws_smt_ir::smt2parser::concrete::*;
 use aws_smt_ir::{fold::Fold, logic::*, Command as IRCommand, ParseError, Script, Term as IRTerm};
-use aws_smt_ir::{IConst, ISymbol, IVar, Index, IUF};
+use aws_smt_ir::{IConst, IOp, ISymbol, IVar, Index, IUF};
 
 use std::convert::Infallible;
 use std::convert::TryInto;
@@ -200,14 +200,18 @@ impl IntraLogicFolder<ALL> for ModernizeStringsBuilder {
 
                 StringOp::ReLoop(indices, t.args[0].clone()).into()
             }
-            "+" | "-" | ">" | "<" | ">=" | "<=" | "*" => {
-                self.has_arith = true;
-                t.into()
-            }
             _ => t.into(),
         })
     }
 
+    /// arithmetic operators decide which logic is guessed
+    fn fold_theory_op(&mut self, op: IOp<ALL>) -> Result<Term, Self::Error> {
+        if let all::Op::Arith(_) = op.as_ref() {
+            self.has_arith = true;
+        }
+        op.super_fold_with(self).map(Into::into)
+    }
+
     fn fold_set_logic(&mut self, logic: ISymbol) -> Result<Command, Self::Error> {
         self.logic = Some(logic.0.clone());
         Ok(Command::SetLogic { symbol: logic })
-- 
2.43.0


From 5320df96bc1ae95802d80fd67603f8aa65d2656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 21/47] fix: do not run past the end of a script that only sets
 options

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 825d157..8c39d51 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -238,7 +238,7 @@ pub fn modernize_string_fcts(commands: impl Iterator<Item = Command>) -> Vec<Com
             "QF_S"
         };
         let mut i = 0;
-        while let Command::SetOption { .. } = v[i] {
+        while let Some(Command::SetOption { .. }) = v.get(i) {
             i += 1;
         }
         v.insert(
-- 
2.43.0


From cdeb34124ef2f65ff082b51b2ea1c3c823885235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 22/47] fix: report errors reading the script to be updated

The parser takes them for the end of the input, so the output silently lost
the rest of the script.
---
 amzn-smt-string-fct-updater/src/main.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/main.rs b/amzn-smt-string-fct-updater/src/main.rs
index 0b8a6d7..3dd2cc1 100644
--- a/amzn-smt-string-fct-updater/src/main.rs
+++ b/amzn-smt-string-fct-updater/src/main.rs
@@ -1,7 +1,8 @@
 // Copyright Amazon.com, Inc. or its affiliates. All Rights Reserved.
 // SPDX-License-Identifier: Apache-2.0
 use amzn_smt_string_fct_updater::*;
-use std::{env, fs, io};
+use std::io::Read;
+use std::{env, fs};
 
 fn main() {
     let file_to_convert = env::args().nth(1).expect(
@@ -14,9 +15,12 @@ fn main() {
         file_ext = ".smt2";
         file = fs::File::open(file_to_convert.clone() + file_ext);
     }
-    let file = file.expect("Error reading input file: did you accidentally include the file extension, or try to read a file without extension smtlib or smt2?");
-    let reader = io::BufReader::new(file);
-    let problem = transpiler::parse(reader);
+    let mut file = file.expect("Error reading input file: did you accidentally include the file extension, or try to read a file without extension smtlib or smt2?");
+    // read the whole file first: the parser takes a read error for the end of the input
+    let mut input = vec![];
+    file.read_to_end(&mut input)
+        .expect("Error reading input file");
+    let problem = transpiler::parse(input.as_slice());
 
     let output = transpiler::modernize_string_fcts(problem.unwrap());
 
-- 
2.43.0


From 900c3026cd10b88a2255f3b6a34782299cff3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 23/47] fix: report errors reading a benchmark whose predicates
 are counted

The parser takes them for the end of the input, so the row silently counted
only part of the benchmark.
---
 amzn-smt-prediction/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index 3da613c..67207c5 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -191,11 +191,14 @@ fn main() -> std::io::Result<()> {
         println!("{}", file_name);
 
         // Open benchmark file
-        let b_file = File::open(&file_name)?;
-        let file_reader = BufReader::new(b_file);
+        let mut b_file = File::open(&file_name)?;
+
+        // Read the whole file first: the parser takes a read error for the end of the input
+        let mut input = Vec::new();
+        b_file.read_to_end(&mut input)?;
 
         // Parse formulas
-        let formulas = Script::<Term>::parse(file_reader);
+        let formulas = Script::<Term>::parse(input.as_slice());
 
         match formulas {
             Ok(script) => {
-- 
2.43.0


From dbad8c051479ccdb88cf6c4d6cf0abf6dcc46041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 24/47] fix: convert an escape sequence that follows an
 incomplete one

---
 amzn-smt-string-fct-updater/src/transpiler.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-string-fct-updater/src/transpiler.rs b/amzn-smt-string-fct-updater/src/transpiler.rs
index 8c39d51..ad54a9b 100644
--- a/amzn-smt-string-fct-updater/src/transpiler.rs
+++ b/amzn-smt-string-fct-updater/src/transpiler.rs
@@ -109,7 +109,8 @@ fn convert_z3escapes(s: &str) -> String {
                 } else {
                     new_string.push('x');
                     new_string.push(c);
-                    state = State::Base;
+                    // c may start another escape sequence
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 }
             }
 
@@ -119,12 +120,14 @@ fn convert_z3escapes(s: &str) -> String {
                     new_string.push(x);
                     new_string.push(c);
                     new_string.push('}');
+                    state = State::Base;
                 } else {
                     new_string.push('x');
                     new_string.push(x);
                     new_string.push(c);
+                    // c may start another escape sequence
+                    state = if c == '\\' { State::Esc } else { State::Base };
                 };
-                state = State::Base;
             }
         }
     }
-- 
2.43.0


From c54558c864a3e99c0100d2ec866c1757a6ccbdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 25/47] fix: report a failure to write the header of an empty
 feature table

---
 amzn-smt-prediction/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index 67207c5..89b1e58 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -168,6 +168,7 @@ fn main() -> std::io::Result<()> {
 
     // Write the header corresponding to the dataset
     out_writer.write_all(string_counter_csv_header(dataset).as_bytes())?;
+    out_writer.flush()?;
 
     for line in list_reader.lines() {
         let mut file_name;
-- 
2.43.0


From 7126d3d4281d28e43b3f99fb4303ace52febe295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 26/47] fix: keep how strings overlap when their length matters

---
 amzn-smt-string-transformer/src/transpiler.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index dfac442..5435529 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -607,6 +607,16 @@ impl CharMap {
                     p_string_props = p_string_props.update_with_truths(props.clone());
                 }
             }
+            // strings whose length matters can be forced to overlap in a string that contains
+            // them, and how they overlap is only kept if the strings are mapped by character
+            strings_char_level_substring |= matches!(
+                p_string_props,
+                StringSetProperties::Some {
+                    len: true,
+                    keep_substrings: true,
+                    ..
+                }
+            );
             if strings_char_level_substring {
                 p_string_props = p_string_props.update_with_truths(StringSetProperties::Some {
                     len: false,
-- 
2.43.0


From 84ba1543924f12999cf1dec50ac314f9c76c840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 27/47] fix: keep equalities between a string function and
 another term

---
 amzn-smt-string-transformer/src/subformula_parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amzn-smt-string-transformer/src/subformula_parser.rs b/amzn-smt-string-transformer/src/subformula_parser.rs
index a465c46..ad42812 100644
--- a/amzn-smt-string-transformer/src/subformula_parser.rs
+++ b/amzn-smt-string-transformer/src/subformula_parser.rs
@@ -75,7 +75,11 @@ impl IntraLogicFolder<ALL> for StringSubformulaCountBuilder {
                         if let [Term::Variable(v), f @ (Term::CoreOp(..) | Term::OtherOp(..) | Term::UF(..))] =
                             args.as_slice()
                         {
-                            if v.sym_str().starts_with("new_var") {
+                            // the first such assertion is the initialization of the variable,
+                            // any other one is a constraint of the query
+                            if v.sym_str().starts_with("new_var")
+                                && !self.string_fct_calls.contains_key(v.sym())
+                            {
                                 self.string_fct_calls.insert(v.sym().clone(), f.clone());
                                 useless_command = true;
                             }
-- 
2.43.0


From dd2c8490e84b81fbcfbf131ece28659fc9c8a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 28/47] fix: map ranges to ranges that contain no character
 literals cannot have

---
 amzn-smt-string-transformer/src/transpiler.rs | 42 ++++++++++---------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/amzn-smt-string-transformer/src/transpiler.rs b/amzn-smt-string-transformer/src/transpiler.rs
index 5435529..083f94e 100644
--- a/amzn-smt-string-transformer/src/transpiler.rs
+++ b/amzn-smt-string-transformer/src/transpiler.rs
@@ -847,15 +847,22 @@ fn initialize_charmap_with_ranges(
     if let Some((_, end, _)) = groups.iter().find(|g| keeps_place(char_map, &g.2)) {
         offset = offset.max(*end as u32 + 1);
     }
+    let illegal = char_map.illegal_chars.clone();
+    // the first place from offset on where a range of this length contains no illegal char: a
+    // string in the mapped range must stand for one in the original range
+    let place = |offset: u32, len: u32| {
+        let is_free = |o: &u32| illegal.iter().all(|c| !(*o..*o + len).contains(&(*c as u32)));
+        (offset..).find(is_free).unwrap()
+    };
+    let len = |start: char, end: char| end as u32 - start as u32 + 1;
     // if there is not enough room for the ranges they are kept as they are
-    let size: u32 = groups
+    let end_offset = groups
         .iter()
         .filter(|(_, _, group)| !keeps_place(char_map, group))
-        .map(|(c1, c2, _)| *c2 as u32 - *c1 as u32 + 1)
-        .sum();
-    let illegal = char_map.illegal_chars.clone();
-    let illegal = |offset: u32| illegal.iter().any(|c| *c as u32 == offset);
-    let room = (offset..0x7f).filter(|o| !illegal(*o)).count() as u32;
+        .fold(offset, |offset, (c1, c2, _)| {
+            place(offset, len(*c1, *c2)) + len(*c1, *c2)
+        });
+    let has_room = end_offset <= 0x7f;
 
     for (start, end, group) in groups {
         // if we hit an int range and it's already been mapped, no problem
@@ -863,22 +870,24 @@ fn initialize_charmap_with_ranges(
         if group.len() == 1 && keeps_place(char_map, &group) {
             continue;
         }
-        let in_place = keeps_place(char_map, &group) || size > room;
+        let in_place = keeps_place(char_map, &group) || !has_room;
+        if !in_place {
+            offset = place(offset, len(start, end));
+        }
         if in_place || group.len() > 1 {
             for c in start..=end {
                 let mapped = if in_place {
                     c as u32
                 } else {
-                    while illegal(offset) {
-                        offset += 1;
-                    }
-                    offset += 1;
-                    offset - 1
+                    offset + (c as u32 - start as u32)
                 };
                 char_map
                     .char_map
                     .insert(c, char::from_u32(mapped).unwrap());
             }
+            if !in_place {
+                offset += len(start, end);
+            }
             for (c1, c2) in group {
                 if !char_map.has_range(c1, c2) {
                     char_map.ranges.push(RangeParams::new(c1, c2, offset));
@@ -886,18 +895,11 @@ fn initialize_charmap_with_ranges(
             }
             continue;
         }
-        while illegal(offset) {
-            offset += 1;
-        }
-        let orig_offset = offset;
         let cur_range = RangeParams::new(start, end, offset + 1);
         char_map
             .char_map
             .insert(start, char::from_u32(offset).unwrap());
         offset += (end as u32) - (start as u32);
-        if (orig_offset + 1..=offset).any(illegal) {
-            offset += 1;
-        }
         char_map
             .char_map
             .insert(end, char::from_u32(offset).unwrap());
@@ -905,7 +907,7 @@ fn initialize_charmap_with_ranges(
         char_map.ranges.push(cur_range);
     }
     // if no room is left for other characters, there is nothing to make new strings of
-    if size > room || offset >= 0x7f {
+    if !has_room || offset >= 0x7f {
         char_map.set_char_to_char(true);
         offset = 0x7f;
     }
-- 
2.43.0


From 406aab152cdb57dba3bb5cfe9c91d14ce5b6e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 29/47] fix: encode products with large coefficients

Adding the term once per unit of the coefficient does not finish for large
coefficients, and panics for those that do not fit in a usize.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index 385965d..c933cd2 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -136,8 +136,15 @@ impl InterLogicFolder<ALL> for Encoder {
                         let x = x.fold_with(self)?;
                         let (c, pos) = int_term(c)
                             .expect("canonicalization produced malformed multiplication");
-                        let c = c.to_usize().unwrap();
-                        let sum = (0..c).try_fold(z, |acc, _| self.encode_plus(acc, x.clone()))?;
+                        // Double and add: `c` is too large in general to add up `x` `c` times
+                        let sum = (c.to_radix_be(2).into_iter()).try_fold(z, |acc, bit| {
+                            let acc = self.encode_plus(acc.clone(), acc)?;
+                            if bit == 1 {
+                                self.encode_plus(acc, x.clone())
+                            } else {
+                                Ok(acc)
+                            }
+                        })?;
                         if pos {
                             sum
                         } else {
-- 
2.43.0


From 6644b3a0233868ed5be7efe4d3e47e14a88aba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 30/47] fix: accept that a solver printed nothing before its
 time limit

---
 amzn-smt-prediction/scripts/generate_predictions.py |  4 ++--
 amzn-smt-prediction/scripts/get_solver_output.py    | 11 +++++++++--
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     |  3 ++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 54e82d9..d9bf351 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -9,7 +9,7 @@ from   sagemaker.predictor     import Predictor
 from   sagemaker.serializers   import CSVSerializer
 from   sagemaker.deserializers import CSVDeserializer
 
-from get_solver_output       import get_cvc4_output
+from get_solver_output       import get_cvc4_output, get_partial_output
 from get_word_counts         import write_word_counts
 from get_word_count_features import get_features, get_bucket_labels
 from clean_eager_lazy_data   import get_feature_csv, compute_bound, get_naive_big_encoding
@@ -297,7 +297,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
         raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = get_partial_output(e)
     if v == 'Full': print("Done.\n")
 
     # Parse the output to generate the features
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 6847885..722373f 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -9,6 +9,13 @@ timeout = 10
 
 
 
+# Returns what a solver had printed when it was stopped: nothing, or bytes
+# which may end in the middle of a character
+def get_partial_output(e):
+    return (e.stdout or b'').decode('utf-8', errors='replace')
+
+
+
 # Runs CVC4 on the problem at b_path and returns the output of the solver
 # If fmf == True, runs with the --strings-fmf option
 def get_cvc4_output(b_path, fmf):
@@ -25,7 +32,7 @@ def get_cvc4_output(b_path, fmf):
         out = raw_out.stdout.strip()
 
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = get_partial_output(e)
 
     return out
 
@@ -38,7 +45,7 @@ def get_z3_output(b_path):
         raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
-        out = str(e.stdout, 'utf-8')
+        out = get_partial_output(e)
 
     return out
 
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 8402b89..9510cc0 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -16,6 +16,7 @@ from time import time
 
 
 from generate_predictions import parse_eager_encoding_output
+from get_solver_output import get_partial_output
 
 
 max_timeout = 300 # 5 minute timeout
@@ -74,7 +75,7 @@ def run_eager_arithmetic(b_path, timeout):
     except subprocess.TimeoutExpired as e:
         print('EA Timeout')
         elapsed = None
-        out = str(e.stdout, 'utf-8')
+        out = get_partial_output(e)
         print(out)
 
     feature_string = parse_eager_encoding_output(out, b_path)
-- 
2.43.0


From 9f4779e3154b0f6d974b956fed9864fdf8a389ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 31/47] fix: strip the extension of benchmarks, not characters
 of their names

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5237a92..5735b86 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -31,7 +31,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').removesuffix('.smt2')
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 722373f..caaf69c 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -85,7 +85,7 @@ if __name__=='__main__':
         i += 1
         l = l[1:-1] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
-        b_name = l.replace('/', '_').strip('.smt2')
+        b_name = l.replace('/', '_').removesuffix('.smt2')
 
         print(str(i) + ": " + b_name)
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 90162a8..99cd6b1 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -98,7 +98,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').removesuffix('.smt2')
 
         print(b_name)
  
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index 9c7b4c6..bd8467f 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -42,7 +42,7 @@ if __name__=='__main__':
         i += 1
 
         b_path = l[1:-1] # Strip off leading slash and trailing newline
-        b_name = b_path.replace('/', '_').strip('.smt2')
+        b_name = b_path.replace('/', '_').removesuffix('.smt2')
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
         fp_count_out = open(path_to_write + '/' + solver + "_count_" + b_name, 'w') # Path where we will write the word counts
-- 
2.43.0


From f7b1611da8328287185c4449eaaad9ca8b665c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 32/47] fix: keep the last character of a benchmark list
 without final newline

---
 amzn-smt-prediction/scripts/find_faster_fmf.py         | 2 +-
 amzn-smt-prediction/scripts/get_solver_output.py       | 2 +-
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 amzn-smt-prediction/scripts/get_word_counts.py         | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 5735b86..8912795 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -29,7 +29,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = l.replace('/', '_').removesuffix('.smt2')
 
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index caaf69c..a02f0b5 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -83,7 +83,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
         b_name = l.replace('/', '_').removesuffix('.smt2')
 
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 99cd6b1..2000098 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -97,7 +97,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = b_path.replace('/', '_').removesuffix('.smt2')
 
         print(b_name)
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index bd8467f..feaa44f 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -41,7 +41,7 @@ if __name__=='__main__':
     for l in fp_in:
         i += 1
 
-        b_path = l[1:-1] # Strip off leading slash and trailing newline
+        b_path = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_name = b_path.replace('/', '_').removesuffix('.smt2')
  
         fp_raw_out   = open(path_to_read  + '/' + solver + "_rawout_" + b_name)     # Path to raw output of solver
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 9510cc0..aeb398a 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -103,7 +103,7 @@ if __name__=='__main__':
     i = 0
     for l in fp_in:
         i += 1
-        l = l[1:-1] # Strip off leading slash and trailing newline
+        l = l.rstrip('\n')[1:] # Strip off leading slash and trailing newline
         b_path = path_prefix + "/" + l
 
         print(str(i) + ": " + b_path)
-- 
2.43.0


From 27f4a3def9a46df1da95ae5ac654873b4c13fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 33/47] fix: return one feature per given bucket

---
 amzn-smt-prediction/scripts/get_word_count_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 2000098..226f3a0 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -39,7 +39,7 @@ def get_bucket_labels(buckets=default_buckets):
 def get_features(fp_count_out, buckets=default_buckets):
 
     # Initialize feature vector with all zeros
-    features = [0 for i in range(len(default_buckets)+1)]
+    features = [0 for i in range(len(buckets)+1)]
 
     for l in fp_count_out:
         num_words = int(l.strip())
-- 
2.43.0


From 6bcdba57ebd84c5005105cd195e31ae7406f3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 34/47] fix: measure run times of solvers with a clock that
 cannot be set

---
 amzn-smt-prediction/scripts/find_faster_fmf.py  | 10 +++++-----
 amzn-smt-prediction/scripts/run_eager_v_lazy.py | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 8912795..c9a46ab 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -5,7 +5,7 @@
 
 import os
 import sys, subprocess
-from time import time
+from time import monotonic
 
 timeout = 300
 start_yellow = '\033[93m'
@@ -40,17 +40,17 @@ if __name__=='__main__':
         #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
 
         try:
-            start = time()
+            start = monotonic()
             subprocess.run("../solvers/cvc4 --strings-exp --strings-fmf " + b_path, shell=True, timeout=timeout)
-            elapsed_fmf = time() - start
+            elapsed_fmf = monotonic() - start
 
         except subprocess.TimeoutExpired:
             elapsed_fmf = timeout
 
         try:
-            start = time()
+            start = monotonic()
             subprocess.run("../solvers/cvc4 --strings-exp  " + b_path, shell=True, timeout=timeout)
-            elapsed_no_fmf = time() - start
+            elapsed_no_fmf = monotonic() - start
 
         except subprocess.TimeoutExpired:
             elapsed_no_fmf = timeout
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index aeb398a..2441569 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -12,7 +12,7 @@
 import os
 from os.path import isfile
 import sys, subprocess
-from time import time
+from time import monotonic
 
 
 from generate_predictions import parse_eager_encoding_output
@@ -26,14 +26,14 @@ max_timeout = 300 # 5 minute timeout
 # Returns None if a result is not returned before the timeout
 def run_cvc4(b_path, timeout):
 
-    start = time()
+    start = monotonic()
 
     # WARNING: Using shell=True below introduces some security risks
     #          (see https://docs.python.org/3/library/subprocess.html#security-considerations)
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
         raw_out = subprocess.run("../solvers/cvc4  " + b_path, shell=True, capture_output=True, timeout=timeout)
-        elapsed = time() - start
+        elapsed = monotonic() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
         return elapsed
     except subprocess.TimeoutExpired as e:
@@ -46,11 +46,11 @@ def run_cvc4(b_path, timeout):
 # Returns None if a result is not returned before the timeout
 def run_z3(b_path, timeout):
 
-    start = time()
+    start = monotonic()
 
     try:
         raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, timeout=timeout)
-        elapsed = time() - start
+        elapsed = monotonic() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
         return elapsed
     except subprocess.TimeoutExpired as e:
@@ -65,11 +65,11 @@ def run_eager_arithmetic(b_path, timeout):
 
     timeout = max(timeout, 5) # Need to run at least 5 seconds to capture features from encoding
 
-    start = time()
+    start = monotonic()
 
     try:
         raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", b_path], capture_output=True, text=True, timeout=timeout)
-        elapsed = time() - start
+        elapsed = monotonic() - start
         out = raw_out.stdout.strip()
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
     except subprocess.TimeoutExpired as e:
-- 
2.43.0


From aa9280f46405bc6219f4e6e317729cdf6d471ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 35/47] fix: do not share the table of off-line features with
 concurrent runs

---
 amzn-smt-prediction/scripts/generate_predictions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index d9bf351..f8522a7 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -1,7 +1,7 @@
 import sys, configparser, json, subprocess
 from os.path import isfile
 from tempfile import NamedTemporaryFile
-from time import time
+from uuid import uuid4
 import numpy as np
 
 import sagemaker
@@ -148,8 +148,8 @@ def do_runtime_prediction(problem_file, endpoint_runtime):
     tmp_bench_list = NamedTemporaryFile(mode='w')
 
     # The offline feature generation executable expects a name for the output, with which it creates a file
-    # "off_features_<name>.csv" in the current directory. We use the time so that we get a unique name each run
-    tmp_output_ext = str(int(time()))
+    # "off_features_<name>.csv" in the current directory. We need a unique name each run
+    tmp_output_ext = uuid4().hex
     tmp_output = "off_features_" + tmp_output_ext + ".csv"
         
     tmp_bench_list.write(problem_file)
-- 
2.43.0


From dd47f610badc425984faa80d208c478f9283216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 36/47] fix: pass the instance to the eager solver as it
 expects it

---
 amzn-smt-prediction/scripts/generate_predictions.py | 2 +-
 amzn-smt-prediction/scripts/run_eager_v_lazy.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index f8522a7..ae69cbf 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -294,7 +294,7 @@ def do_eager_lazy(problem_file, endpoint_eager_v_lazy):
     # Cuts off after 5 seconds, after which encoding is generally done and it is on to solving, which isn't necessary here
     if v == 'Full': print("Generating features... (calling amzn-smt-eager-arithmetic)")
     try:
-        raw_out = subprocess.run([path_to_ea_exec, "solve", problem_file], capture_output=True, text=True, timeout=ea_timeout)
+        raw_out = subprocess.run([path_to_ea_exec, "solve", "--instance", problem_file], capture_output=True, text=True, timeout=ea_timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
         out = get_partial_output(e)
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 2441569..ae268f0 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -68,7 +68,7 @@ def run_eager_arithmetic(b_path, timeout):
     start = monotonic()
 
     try:
-        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", b_path], capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", "--instance", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = monotonic() - start
         out = raw_out.stdout.strip()
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-- 
2.43.0


From 5d293446ba728bf46cc2172cd1d4eb86aa707a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 37/47] fix: do not name a solver that gave no verdict the
 fastest

---
 amzn-smt-prediction/scripts/run_eager_v_lazy.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index ae268f0..5022879 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -22,6 +22,12 @@ from get_solver_output import get_partial_output
 max_timeout = 300 # 5 minute timeout
 
 
+# Whether a solver's output holds a verdict: a solver that gives up or dies
+# has not solved the problem, however fast
+def is_solved(out):
+    return any(l.strip() in ('sat', 'unsat') for l in out.splitlines())
+
+
 # Runs CVC4 on the problem at b_path and returns the runtime
 # Returns None if a result is not returned before the timeout
 def run_cvc4(b_path, timeout):
@@ -32,10 +38,10 @@ def run_cvc4(b_path, timeout):
     #          (see https://docs.python.org/3/library/subprocess.html#security-considerations)
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
-        raw_out = subprocess.run("../solvers/cvc4  " + b_path, shell=True, capture_output=True, timeout=timeout)
+        raw_out = subprocess.run("../solvers/cvc4  " + b_path, shell=True, capture_output=True, text=True, timeout=timeout)
         elapsed = monotonic() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-        return elapsed
+        return elapsed if is_solved(raw_out.stdout) else None
     except subprocess.TimeoutExpired as e:
         print('CVC4 Timeout')
         return None
@@ -49,10 +55,10 @@ def run_z3(b_path, timeout):
     start = monotonic()
 
     try:
-        raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = monotonic() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
-        return elapsed
+        return elapsed if is_solved(raw_out.stdout) else None
     except subprocess.TimeoutExpired as e:
         print('Z3 Timeout')
         return None
@@ -71,6 +77,7 @@ def run_eager_arithmetic(b_path, timeout):
         raw_out = subprocess.run(["../solvers/amzn-smt-eager-arithmetic", "solve", "--instance", b_path], capture_output=True, text=True, timeout=timeout)
         elapsed = monotonic() - start
         out = raw_out.stdout.strip()
+        if not is_solved(out): elapsed = None
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
     except subprocess.TimeoutExpired as e:
         print('EA Timeout')
-- 
2.43.0


From e9e026a78c95f8c50e8961c3f740867312221cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 38/47] fix: quote the paths of benchmarks for the shell

---
 amzn-smt-prediction/scripts/find_faster_fmf.py   | 5 +++--
 amzn-smt-prediction/scripts/get_solver_output.py | 5 +++--
 amzn-smt-prediction/scripts/run_eager_v_lazy.py  | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index c9a46ab..2ed1522 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -5,6 +5,7 @@
 
 import os
 import sys, subprocess
+from shlex import quote
 from time import monotonic
 
 timeout = 300
@@ -41,7 +42,7 @@ if __name__=='__main__':
 
         try:
             start = monotonic()
-            subprocess.run("../solvers/cvc4 --strings-exp --strings-fmf " + b_path, shell=True, timeout=timeout)
+            subprocess.run("../solvers/cvc4 --strings-exp --strings-fmf " + quote(b_path), shell=True, timeout=timeout)
             elapsed_fmf = monotonic() - start
 
         except subprocess.TimeoutExpired:
@@ -49,7 +50,7 @@ if __name__=='__main__':
 
         try:
             start = monotonic()
-            subprocess.run("../solvers/cvc4 --strings-exp  " + b_path, shell=True, timeout=timeout)
+            subprocess.run("../solvers/cvc4 --strings-exp  " + quote(b_path), shell=True, timeout=timeout)
             elapsed_no_fmf = monotonic() - start
 
         except subprocess.TimeoutExpired:
diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index a02f0b5..920a84f 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -2,6 +2,7 @@
 
 import os
 import sys, subprocess
+from shlex import quote
 
 solvers = ['cvc4', 'z3'] # TODO If adding a new solver, add it here
 
@@ -25,9 +26,9 @@ def get_cvc4_output(b_path, fmf):
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
         if fmf:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, shell=True, timeout=timeout)
         else:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + b_path, capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, shell=True, timeout=timeout)
 
         out = raw_out.stdout.strip()
 
diff --git a/amzn-smt-prediction/scripts/run_eager_v_lazy.py b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
index 5022879..686aca2 100644
--- a/amzn-smt-prediction/scripts/run_eager_v_lazy.py
+++ b/amzn-smt-prediction/scripts/run_eager_v_lazy.py
@@ -12,6 +12,7 @@
 import os
 from os.path import isfile
 import sys, subprocess
+from shlex import quote
 from time import monotonic
 
 
@@ -38,7 +39,7 @@ def run_cvc4(b_path, timeout):
     #          (see https://docs.python.org/3/library/subprocess.html#security-considerations)
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
-        raw_out = subprocess.run("../solvers/cvc4  " + b_path, shell=True, capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run("../solvers/cvc4  " + quote(b_path), shell=True, capture_output=True, text=True, timeout=timeout)
         elapsed = monotonic() - start
         print(raw_out) # Print output to verify things are setup correctly. Can comment out
         return elapsed if is_solved(raw_out.stdout) else None
-- 
2.43.0


From 269a364184490889f64bd9d33067054710b10c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 39/47] fix: write the lists of benchmarks in the form the
 scripts read

---
 amzn-smt-prediction/scripts/find_faster_fmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/find_faster_fmf.py b/amzn-smt-prediction/scripts/find_faster_fmf.py
index 2ed1522..fb18a21 100644
--- a/amzn-smt-prediction/scripts/find_faster_fmf.py
+++ b/amzn-smt-prediction/scripts/find_faster_fmf.py
@@ -60,9 +60,9 @@ if __name__=='__main__':
         
         if(elapsed_fmf < elapsed_no_fmf):
             print(start_yellow + "FMF FASTER!" + end_yellow)
-            fp_out1.write(l + '\n')
+            fp_out1.write('/' + l + '\n')
         else:
-            fp_out2.write(l + '\n')
+            fp_out2.write('/' + l + '\n')
 
         fp_out3.write(str(elapsed_fmf) + "," + str(elapsed_no_fmf) + "\n")
 
-- 
2.43.0


From d27885cef34263defb1af27b85814d2bf5b3d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 40/47] fix: update benchmarks whose paths contain several dots

---
 amzn-smt-prediction/scripts/modernize_benchmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/modernize_benchmarks.py b/amzn-smt-prediction/scripts/modernize_benchmarks.py
index 5185629..3f598d3 100644
--- a/amzn-smt-prediction/scripts/modernize_benchmarks.py
+++ b/amzn-smt-prediction/scripts/modernize_benchmarks.py
@@ -7,7 +7,7 @@
 #       doing it this way allows the same benchmark list to be used for both this script and
 #       the parser).
 import sys, subprocess
-from os.path import isfile
+from os.path import isfile, splitext
 
 path_to_exec = "../../amzn-smt-string-fct-updater/release/amzn-smt-string-fct-updater"
 
@@ -26,7 +26,7 @@ if __name__=='__main__':
     fp_in = open(sys.argv[1])
 
     for l in fp_in:
-        name     = l.split('.')[0][:-4] # Get the filename, stripping off the file extension and "_upt"
+        name     = splitext(l.rstrip('\n'))[0][:-4] # Get the filename, stripping off the file extension and "_upt"
         filename = sys.argv[2] + name
         raw_out  = subprocess.run([path_to_exec, filename], capture_output=True, text=True)
 
-- 
2.43.0


From 91ed8f8ffd03631ab3583d661909781b52b866bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 41/47] fix: notice substrings that overlap beyond their
 neighbours

---
 amzn-smt-string-transformer/src/string_mappings.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amzn-smt-string-transformer/src/string_mappings.rs b/amzn-smt-string-transformer/src/string_mappings.rs
index a105b7c..ceace2e 100644
--- a/amzn-smt-string-transformer/src/string_mappings.rs
+++ b/amzn-smt-string-transformer/src/string_mappings.rs
@@ -591,6 +591,10 @@ pub fn gen_string_keep_substrings(
             // then it's contained in the previous string, skip it (it's already handled)
             continue;
         }
+        // if it overlaps what is already mapped (not only the neighbour in the list), bail out
+        if cur_startpoint > mid_ind {
+            return Err(StringMapError::MidstringPartialOverlap);
+        }
 
         // if entirely in previous or next point, continue
         // no need to deal with special cases of prefix or suffix since
-- 
2.43.0


From 0d31e3a2e6a7a701c51fa44e8a40e3776d9d1eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 42/47] fix: let the prediction script name its problem by an
 absolute path

---
 amzn-smt-prediction/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amzn-smt-prediction/src/main.rs b/amzn-smt-prediction/src/main.rs
index 89b1e58..39e5060 100644
--- a/amzn-smt-prediction/src/main.rs
+++ b/amzn-smt-prediction/src/main.rs
@@ -176,7 +176,7 @@ fn main() -> std::io::Result<()> {
         // Prepend file path
         match dataset.as_str() {
             "smtcomp" | "kepler" => file_name = String::from("SMT_Comp_2020"),
-            "script" => file_name = String::from("./"),
+            "script" => file_name = String::new(), // the name as given, perhaps absolute
             "other" => {
                 println!("No dataset specified. Looking for benchmarks in current directory.");
                 file_name = String::from("./");
-- 
2.43.0


From 4bdc551d4ea9c7302d8a6ec4b73112bd225a5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 43/47] fix: let concurrent script runs create their directory

---
 amzn-smt-prediction/scripts/get_solver_output.py       | 3 +--
 amzn-smt-prediction/scripts/get_word_count_features.py | 3 +--
 amzn-smt-prediction/scripts/get_word_counts.py         | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 920a84f..6b651b9 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -78,8 +78,7 @@ if __name__=='__main__':
         print("Running with --strings-fmf")
 
     path = "../" + solver + "_output/raw"
-    if not os.path.exists(path):
-        os.makedirs(path)
+    os.makedirs(path, exist_ok=True)
 
     i = 0
     for l in fp_in:
diff --git a/amzn-smt-prediction/scripts/get_word_count_features.py b/amzn-smt-prediction/scripts/get_word_count_features.py
index 226f3a0..4931a80 100644
--- a/amzn-smt-prediction/scripts/get_word_count_features.py
+++ b/amzn-smt-prediction/scripts/get_word_count_features.py
@@ -84,8 +84,7 @@ if __name__=='__main__':
     path_to_read  = base_path + "/counts"
     path_to_write = base_path + "/features"
 
-    if not os.path.exists(path_to_write):
-        os.makedirs(path_to_write)
+    os.makedirs(path_to_write, exist_ok=True)
 
     fp_out = open(path_to_write + '/' + "on_features_" + theory + "_" + solver + ".csv", 'w') # Path where we will write the features
 
diff --git a/amzn-smt-prediction/scripts/get_word_counts.py b/amzn-smt-prediction/scripts/get_word_counts.py
index feaa44f..f0c9098 100644
--- a/amzn-smt-prediction/scripts/get_word_counts.py
+++ b/amzn-smt-prediction/scripts/get_word_counts.py
@@ -33,8 +33,7 @@ if __name__=='__main__':
     path_to_read  = base_path + "/raw"
     path_to_write = base_path + "/counts"
 
-    if not os.path.exists(path_to_write):
-        os.makedirs(path_to_write)
+    os.makedirs(path_to_write, exist_ok=True)
 
     i = 0
 
-- 
2.43.0


From f3b58531067247f30291c5929fd3cd16edc8f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 44/47] fix: do not predict from features that could not be
 generated

---
 amzn-smt-prediction/scripts/generate_predictions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index ae69cbf..4876f84 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -161,6 +161,11 @@ def do_runtime_prediction(problem_file, endpoint_runtime):
     if v == 'Full': print("Generating offline features... (calling amzn-smt-prediction)")
     raw_out = subprocess.run([path_to_off_exec, "script", tmp_bench_list.name, tmp_output_ext], capture_output=True, text=True)
     out = raw_out.stdout.strip()
+    if raw_out.returncode != 0:
+        print("ERROR: The offline features could not be generated.")
+        print(raw_out.stderr)
+        subprocess.run(["rm", "-f", tmp_output])
+        exit(1)
     if v == 'Full': print("Done.\n")
 
     # Get results
-- 
2.43.0


From b64a2182ed4357b2eeb341340712992797d67b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 45/47] fix: take solver output that is not UTF-8

---
 amzn-smt-prediction/scripts/get_solver_output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amzn-smt-prediction/scripts/get_solver_output.py b/amzn-smt-prediction/scripts/get_solver_output.py
index 6b651b9..fb86ccd 100644
--- a/amzn-smt-prediction/scripts/get_solver_output.py
+++ b/amzn-smt-prediction/scripts/get_solver_output.py
@@ -26,9 +26,9 @@ def get_cvc4_output(b_path, fmf):
     #          In this case it is necessary as CVC4 can't parse the cmdline options when shell=False.
     try:
         if fmf:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk --strings-fmf -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, errors='replace', shell=True, timeout=timeout)
         else:
-            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, shell=True, timeout=timeout)
+            raw_out = subprocess.run("../solvers/cvc4 --strings-exp --rewrite-divk -t strings-lemma -t strings-conflict " + quote(b_path), capture_output=True, text=True, errors='replace', shell=True, timeout=timeout)
 
         out = raw_out.stdout.strip()
 
@@ -43,7 +43,7 @@ def get_cvc4_output(b_path, fmf):
 # TODO Set options to enable Z3 output of lemmas
 def get_z3_output(b_path):
     try:
-        raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, timeout=timeout)
+        raw_out = subprocess.run(["../solvers/z3", b_path], capture_output=True, text=True, errors='replace', timeout=timeout)
         out = raw_out.stdout.strip()
     except subprocess.TimeoutExpired as e:
         out = get_partial_output(e)
-- 
2.43.0


From 39d1f5820eac879e57182c3052571218acb6552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 46/47] fix: read the statistics of partitions with braces in
 their names

---
 amzn-smt-prediction/scripts/generate_predictions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amzn-smt-prediction/scripts/generate_predictions.py b/amzn-smt-prediction/scripts/generate_predictions.py
index 4876f84..23b4427 100644
--- a/amzn-smt-prediction/scripts/generate_predictions.py
+++ b/amzn-smt-prediction/scripts/generate_predictions.py
@@ -74,8 +74,8 @@ def parse_eager_encoding_output(out, problem_file):
     # So if the output format changes, this very well could break
     for l in out.splitlines():
         if l.startswith("Partition"):
-            start = l.index('{') + 2
-            stop  = l.index(' bits')
+            start = l.rindex('{') + 2 # the variable before it may be named anything
+            stop  = l.rindex(' bits')
             pruned = l[start:stop]
             pruned = pruned.replace(' }', '')
 
-- 
2.43.0


From f5d00da83d3944533626f2dee1ed91a07818bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 47/47] fix: bit order of bit-vector literals

Literals start with the most significant digit, the bits of a variable with
the least significant one: bvule compared the digits of a literal in the
wrong order, and models were printed backwards.
---
 amzn-smt-eager-arithmetic/src/encoding.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/amzn-smt-eager-arithmetic/src/encoding.rs b/amzn-smt-eager-arithmetic/src/encoding.rs
index c933cd2..110f605 100644
--- a/amzn-smt-eager-arithmetic/src/encoding.rs
+++ b/amzn-smt-eager-arithmetic/src/encoding.rs
@@ -69,7 +69,12 @@ impl InterLogicFolder<ALL> for Encoder {
 
     fn fold_var(&mut self, var: IVar<QualIdentifier>) -> Result<Term<Self::U>, Self::Error> {
         if let Some(bv) = var.to_bitvec_literal() {
-            Ok(bv.into())
+            Ok(match bv {
+                // `to_bitvec_literal` starts with the least significant bit, `#b` literals do not
+                Constant::Binary(bits) => Constant::Binary(bits.into_iter().rev().collect()),
+                bv => bv,
+            }
+            .into())
         } else {
             Ok(Term::from(IVar::from(self.var(&var)?)))
         }
@@ -258,10 +263,9 @@ impl Encoder {
     > {
         match c {
             Constant::Numeral(n) => Ok(Either::Left(Self::int_const_bits(n.clone()))),
-            Constant::Binary(bits) => Ok(Either::Right(bits.iter().copied().map_into())),
-            Constant::Hexadecimal(_) => {
-                todo!("hexadecimal bit iterator")
-            }
+            // The digits of a literal start with the most significant one
+            Constant::Binary(bits) => Ok(Either::Right(bits.iter().rev().copied().map_into())),
+            Constant::Hexadecimal(_) => bail!("unsupported hexadecimal constant: {}", c),
             c => bail!("expected integer or bit-vector constant, got: {}", c),
         }
     }
@@ -611,7 +615,8 @@ impl Encoder {
                     let bits = self
                         .bit_vec_bits(&bv)
                         .map(|bit| bit.evaluate(assignment).unwrap_or(false));
-                    (bv.sym().clone(), Constant::Binary(bits.collect()).into())
+                    // The digits of a literal start with the most significant one
+                    (bv.sym().clone(), Constant::Binary(bits.rev().collect()).into())
                 }
             })
             .collect()
-- 
2.43.0

