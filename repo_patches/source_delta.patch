From e436ab6e56fef5aa94616ea3f328be7bb0eb9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:15 +0000
Subject: [PATCH 1/7] fix: let enforce_zero closures clone and drop wires in
 the s(X, y) evaluator

---
 crates/ragu_circuits/src/s/sy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 380fd5e..8d8afea 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -71,7 +71,7 @@ use ragu_core::{
 };
 
 use alloc::{vec, vec::Vec};
-use core::cell::{RefCell, RefMut};
+use core::cell::RefCell;
 
 use crate::{
     DriverScope,
@@ -450,21 +450,21 @@ impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F
 ///
 /// # Tuple Fields
 ///
-/// - `.0` — Mutable borrow of the [`VirtualTable`] for value distribution,
-///   held for the duration of the linear combination to avoid repeated
-///   [`RefCell::borrow_mut`] calls.
+/// - `.0` — The [`VirtualTable`] for value distribution. It is borrowed for each
+///   term only, because the closure may clone or drop virtual wires, which
+///   borrows the table too.
 /// - `.1` — The $y^j$ coefficient for this constraint (from `current_y`).
 ///
 /// [`Driver::enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
 struct TermEnforcer<'table, 'sy, F: Field, R: Rank>(
-    RefMut<'table, VirtualTable<'sy, F, R>>,
+    &'table RefCell<VirtualTable<'sy, F, R>>,
     Coeff<F>,
 );
 impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F>
     for TermEnforcer<'table, 'sy, F, R>
 {
-    fn add_term(mut self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
-        self.0.add(wire.index, coeff * self.1);
+    fn add_term(self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
+        self.0.borrow_mut().add(wire.index, coeff * self.1);
         self
     }
 
@@ -592,7 +592,7 @@ impl<'table, 'sy, F: Field, R: Rank> Driver<'table> for Evaluator<'table, 'sy, '
         self.scope.constraints += 1;
 
         lc(TermEnforcer(
-            self.virtual_table.borrow_mut(),
+            self.virtual_table,
             Coeff::Arbitrary(self.scope.current_y),
         ));
 
-- 
2.43.0


From 73e0f1b0274657a3f344c4791ed65e3eb85b474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:28 +0000
Subject: [PATCH 2/7] verif hook: segment fingerprints and sizes of a circuit
 (cfg ragu_verif)

---
 crates/ragu_circuits/src/lib.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crates/ragu_circuits/src/lib.rs b/crates/ragu_circuits/src/lib.rs
index 3768fe4..4af0d32 100644
--- a/crates/ragu_circuits/src/lib.rs
+++ b/crates/ragu_circuits/src/lib.rs
@@ -6,6 +6,7 @@
 //! internally by Ragu.
 
 #![no_std]
+#![allow(unexpected_cfgs)]
 #![deny(unsafe_code)]
 #![allow(clippy::type_complexity)]
 #![deny(rustdoc::broken_intra_doc_links)]
@@ -324,3 +325,33 @@ impl<'a, F: Field, R: Rank> BondingObject<'a, F, R> {
         self.inner
     }
 }
+
+/// Inspection points for the verification harness.
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use ff::FromUniformBytes;
+    use ragu_core::Result;
+
+    use alloc::vec::Vec;
+
+    use crate::{Circuit, RoutineFingerprint, RoutineIdentity};
+
+    /// Per segment, in synthesis order: the fingerprint (none for the root),
+    /// the number of gates and the number of constraints.
+    pub fn segments<F: FromUniformBytes<64>, C: Circuit<F>>(
+        circuit: &C,
+    ) -> Result<Vec<(Option<RoutineFingerprint>, usize, usize)>> {
+        Ok(crate::metrics::eval(circuit)?
+            .segments
+            .iter()
+            .map(|s| {
+                let id = match s.identity() {
+                    RoutineIdentity::Root => None,
+                    RoutineIdentity::Routine(f) => Some(*f),
+                };
+                (id, s.num_gates(), s.num_constraints())
+            })
+            .collect())
+    }
+}
-- 
2.43.0


From 7b58fe98b42dfdda61cb0544422eab87879adcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 3/7] fix: refuse header suffixes that wrap around to internal
 ones

Suffix::new(usize::MAX - 1) and Suffix::new(usize::MAX) overflow in
Suffix::get, which without overflow checks makes them equal to the
suffixes reserved for recursion and the trivial header.
---
 crates/ragu_pcd/src/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ragu_pcd/src/header.rs b/crates/ragu_pcd/src/header.rs
index 50a5fe0..521dc0c 100644
--- a/crates/ragu_pcd/src/header.rs
+++ b/crates/ragu_pcd/src/header.rs
@@ -38,7 +38,17 @@ pub struct Suffix {
 
 impl Suffix {
     /// Creates a new application-defined [`Header`] suffix.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `value` is so large that the suffix would wrap around to one
+    /// of those used internally by Ragu.
     pub const fn new(value: usize) -> Self {
+        assert!(
+            value <= usize::MAX - NUM_INTERNAL_SUFFIXES as usize,
+            "application header suffix is too large"
+        );
+
         Suffix {
             suffix: HeaderSuffix::Application(value),
         }
-- 
2.43.0


From 40a69bfab79720008e2ec8d5657b6a9c57bbf5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:22 +0000
Subject: [PATCH 4/7] verif hook: inspection points of ragu_pcd (cfg
 ragu_verif)

---
 crates/ragu_pcd/src/lib.rs   |   4 +
 crates/ragu_pcd/src/verif.rs | 213 +++++++++++++++++++++++++++++++++++
 2 files changed, 217 insertions(+)
 create mode 100644 crates/ragu_pcd/src/verif.rs

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index df42d56..c0d789e 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -14,6 +14,7 @@
 #![allow(clippy::type_complexity, clippy::too_many_arguments)]
 #![deny(rustdoc::broken_intra_doc_links)]
 #![deny(missing_docs)]
+#![cfg_attr(ragu_verif, allow(missing_docs))]
 #![doc(html_favicon_url = "https://tachyon.z.cash/assets/ragu/v1/favicon-32x32.png")]
 #![doc(html_logo_url = "https://tachyon.z.cash/assets/ragu/v1/rustdoc-128x128.png")]
 
@@ -29,6 +30,9 @@ pub mod header;
 mod internal;
 mod proof;
 pub mod step;
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif;
 mod verify;
 
 use ragu_arithmetic::Cycle;
diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
new file mode 100644
index 0000000..c77371d
--- /dev/null
+++ b/crates/ragu_pcd/src/verif.rs
@@ -0,0 +1,213 @@
+//! Inspection points for the verification harness.
+
+use alloc::{vec, vec::Vec};
+
+use ragu_arithmetic::Cycle;
+use ragu_circuits::{
+    Circuit,
+    polynomials::{Rank, sparse},
+    registry::CircuitIndex,
+};
+use ragu_core::{
+    Result,
+    drivers::{Driver, DriverValue},
+};
+use ragu_primitives::Element;
+
+use crate::{
+    Application, Pcd, Proof,
+    header::Header,
+    step::{
+        Encoded, Step,
+        internal::{adapter::Adapter, rerandomize::Rerandomize},
+    },
+};
+
+pub use crate::internal::{endoscalar, fold_revdot, native, nested, transcript};
+
+/// The proof without its data, to be carried with other data.
+pub fn proof<C: Cycle, R: Rank, H: Header<C::CircuitField>>(pcd: Pcd<C, R, H>) -> Proof<C, R> {
+    pcd.into_parts().0
+}
+
+/// A proof of nothing, as `seed` starts from.
+pub fn trivial_proof<C: Cycle, R: Rank, const HEADER_SIZE: usize>(
+    app: &Application<'_, C, R, HEADER_SIZE>,
+) -> Proof<C, R> {
+    app.trivial_proof()
+}
+
+/// Everything a proof is made of.
+pub struct Parts<'a, C: Cycle, R: Rank> {
+    pub circuit_id: &'a mut CircuitIndex,
+    pub headers: [&'a mut Vec<C::CircuitField>; 2],
+    pub native: Vec<(&'static str, &'a mut sparse::Polynomial<C::CircuitField, R>)>,
+    pub nested: Vec<(&'static str, &'a mut sparse::Polynomial<C::ScalarField, R>)>,
+    pub scalars: Vec<(&'static str, &'a mut C::CircuitField)>,
+    pub host: Vec<(&'static str, &'a mut C::HostCurve)>,
+    pub bridges: Vec<(&'static str, &'a mut C::NestedCurve)>,
+}
+
+/// Everything a proof is made of.
+pub fn parts<C: Cycle, R: Rank>(p: &mut Proof<C, R>) -> Parts<'_, C, R> {
+    let a = &mut p.application;
+    let ch = &mut p.challenges;
+    let ci = &mut p.circuits;
+    let mut nested = vec![
+        ("bridge_preamble", &mut p.preamble.bridge.rx),
+        ("bridge_s_prime", &mut p.s_prime.bridge.rx),
+        ("bridge_inner_error", &mut p.inner_error.bridge.rx),
+        ("bridge_outer_error", &mut p.outer_error.bridge.rx),
+        ("bridge_ab", &mut p.ab.bridge.rx),
+        ("bridge_query", &mut p.query.bridge.rx),
+        ("bridge_f", &mut p.f.bridge.rx),
+        ("bridge_eval", &mut p.eval.bridge.rx),
+        ("endoscalar", &mut p.p.nested.endoscalar_rx),
+        ("points", &mut p.p.nested.points_rx),
+    ];
+    nested.extend(
+        p.p.nested
+            .step_rxs
+            .iter_mut()
+            .map(|rx| ("endoscaling_step", rx)),
+    );
+    Parts {
+        circuit_id: &mut a.circuit_id,
+        headers: [&mut a.left_header, &mut a.right_header],
+        native: vec![
+            ("application", &mut a.rx_triple.rx),
+            ("preamble", &mut p.preamble.native.rx),
+            ("inner_error", &mut p.inner_error.native.rx_triple.rx),
+            ("outer_error", &mut p.outer_error.native.rx),
+            ("query", &mut p.query.native.rx_triple.rx),
+            ("eval", &mut p.eval.native.rx),
+            ("hashes_1", &mut ci.hashes_1.rx),
+            ("hashes_2", &mut ci.hashes_2.rx),
+            ("inner_collapse", &mut ci.inner_collapse.rx),
+            ("outer_collapse", &mut ci.outer_collapse.rx),
+            ("compute_v", &mut ci.compute_v.rx),
+            ("a", &mut p.ab.native.a_poly),
+            ("b", &mut p.ab.native.b_poly),
+            ("registry_xy", &mut p.query.native.registry_xy_poly),
+            ("registry_wx0", &mut p.s_prime.native.registry_wx0_poly),
+            ("registry_wx1", &mut p.s_prime.native.registry_wx1_poly),
+            ("registry_wy", &mut p.inner_error.native.registry_wy_poly),
+            ("f", &mut p.f.native.poly),
+            ("p", &mut p.p.native.poly),
+        ],
+        nested,
+        scalars: vec![
+            ("w", &mut ch.w),
+            ("y", &mut ch.y),
+            ("z", &mut ch.z),
+            ("mu", &mut ch.mu),
+            ("nu", &mut ch.nu),
+            ("mu_prime", &mut ch.mu_prime),
+            ("nu_prime", &mut ch.nu_prime),
+            ("x", &mut ch.x),
+            ("alpha", &mut ch.alpha),
+            ("u", &mut ch.u),
+            ("pre_beta", &mut ch.pre_beta),
+            ("c", &mut p.ab.native.c),
+            ("v", &mut p.p.native.v),
+        ],
+        host: vec![
+            ("application", &mut a.rx_triple.commitment),
+            ("preamble", &mut p.preamble.native.commitment),
+            (
+                "inner_error",
+                &mut p.inner_error.native.rx_triple.commitment,
+            ),
+            ("outer_error", &mut p.outer_error.native.commitment),
+            ("query", &mut p.query.native.rx_triple.commitment),
+            ("eval", &mut p.eval.native.commitment),
+            ("hashes_1", &mut ci.hashes_1.commitment),
+            ("hashes_2", &mut ci.hashes_2.commitment),
+            ("inner_collapse", &mut ci.inner_collapse.commitment),
+            ("outer_collapse", &mut ci.outer_collapse.commitment),
+            ("compute_v", &mut ci.compute_v.commitment),
+            ("a", &mut p.ab.native.a_commitment),
+            ("b", &mut p.ab.native.b_commitment),
+            ("registry_xy", &mut p.query.native.registry_xy_commitment),
+            (
+                "registry_wx0",
+                &mut p.s_prime.native.registry_wx0_commitment,
+            ),
+            (
+                "registry_wx1",
+                &mut p.s_prime.native.registry_wx1_commitment,
+            ),
+            (
+                "registry_wy",
+                &mut p.inner_error.native.registry_wy_commitment,
+            ),
+            ("f", &mut p.f.native.commitment),
+            ("p", &mut p.p.native.commitment),
+        ],
+        bridges: vec![
+            ("bridge_preamble", &mut p.preamble.bridge.commitment),
+            ("bridge_s_prime", &mut p.s_prime.bridge.commitment),
+            ("bridge_inner_error", &mut p.inner_error.bridge.commitment),
+            ("bridge_outer_error", &mut p.outer_error.bridge.commitment),
+            ("bridge_ab", &mut p.ab.bridge.commitment),
+            ("bridge_query", &mut p.query.bridge.commitment),
+            ("bridge_f", &mut p.f.bridge.commitment),
+            ("bridge_eval", &mut p.eval.bridge.commitment),
+        ],
+    }
+}
+
+/// The elements a header is encoded as, keeping the gadget's structure or not.
+pub fn encode<'dr, H: Header<D::F>, const HEADER_SIZE: usize, D: Driver<'dr, F: ff::PrimeField>>(
+    dr: &mut D,
+    data: DriverValue<D, H::Data>,
+    uniform: bool,
+) -> Result<Vec<Element<'dr, D>>> {
+    let encoded = if uniform {
+        Encoded::<_, H, HEADER_SIZE>::new_uniform(dr, data)?
+    } else {
+        Encoded::<_, H, HEADER_SIZE>::new(dr, data)?
+    };
+    let mut elements = Vec::new();
+    encoded.write(dr, &mut elements)?;
+    Ok(elements)
+}
+
+/// The public elements of the circuit that proves a step.
+pub fn step_elements<'dr, 'source: 'dr, C, S, R, const HEADER_SIZE: usize, D>(
+    dr: &mut D,
+    step: S,
+    witness: DriverValue<
+        D,
+        (
+            <S::Left as Header<C::CircuitField>>::Data,
+            <S::Right as Header<C::CircuitField>>::Data,
+            S::Witness<'source>,
+        ),
+    >,
+) -> Result<Vec<Element<'dr, D>>>
+where
+    C: Cycle,
+    S: Step<C> + 'dr,
+    R: Rank,
+    D: Driver<'dr, F = C::CircuitField>,
+{
+    let adapter = Adapter::<C, S, R, HEADER_SIZE>::new(step);
+    Ok(adapter.witness(dr, witness)?.into_output().into_inner())
+}
+
+/// The public elements of the circuit that rerandomizes a proof.
+pub fn rerandomize_elements<'dr, C, H, R, const HEADER_SIZE: usize, D>(
+    dr: &mut D,
+    data: DriverValue<D, H::Data>,
+) -> Result<Vec<Element<'dr, D>>>
+where
+    C: Cycle,
+    H: Header<C::CircuitField>,
+    R: Rank,
+    D: Driver<'dr, F = C::CircuitField>,
+{
+    use ragu_core::maybe::Maybe;
+    let witness = data.map(|data| (data, (), ()));
+    step_elements::<C, _, R, HEADER_SIZE, D>(dr, Rerandomize::<H>::new(), witness)
+}
-- 
2.43.0


From 53da63136d401bc75dae0f35c683b1467e9dfd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 5/7] verif hook: claim sources of ragu_pcd (cfg ragu_verif)

---
 crates/ragu_pcd/src/verif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
index c77371d..90b73e6 100644
--- a/crates/ragu_pcd/src/verif.rs
+++ b/crates/ragu_pcd/src/verif.rs
@@ -23,7 +23,7 @@ use crate::{
     },
 };
 
-pub use crate::internal::{endoscalar, fold_revdot, native, nested, transcript};
+pub use crate::internal::{claims, endoscalar, fold_revdot, native, nested, transcript};
 
 /// The proof without its data, to be carried with other data.
 pub fn proof<C: Cycle, R: Rank, H: Header<C::CircuitField>>(pcd: Pcd<C, R, H>) -> Proof<C, R> {
-- 
2.43.0


From ddcebdb86e67f8d5be8384f6d1da5a78d6089c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:47 +0000
Subject: [PATCH 6/7] fix: routine fingerprints confused the outputs of nested
 calls with gates

---
 crates/ragu_circuits/src/metrics.rs | 93 +++++++++++++----------------
 1 file changed, 42 insertions(+), 51 deletions(-)

diff --git a/crates/ragu_circuits/src/metrics.rs b/crates/ragu_circuits/src/metrics.rs
index 76aaf79..dece5b6 100644
--- a/crates/ragu_circuits/src/metrics.rs
+++ b/crates/ragu_circuits/src/metrics.rs
@@ -231,6 +231,10 @@ struct CounterScope<F> {
     /// Running monomial for $d$ wires: $x_3^{i+1}$ at gate $i$.
     current_d: F,
 
+    /// Running monomial for the output wires of nested routine calls:
+    /// $x_4^{i+1}$ for the $i$-th of them.
+    current_output: F,
+
     /// Horner accumulator for the fingerprint evaluation result.
     result: F,
 }
@@ -245,8 +249,8 @@ struct CounterScope<F> {
 /// context.
 ///
 /// Nested routine outputs are treated as auxiliary inputs to the caller: on
-/// return, output wires are remapped to fresh allocations in the parent scope
-/// rather than folding the child's fingerprint scalar. This makes each
+/// return, output wires are remapped to a geometric sequence of their own (base
+/// $x_4$) in the parent scope rather than folding the child's fingerprint scalar. This makes each
 /// routine's fingerprint capture only its *internal* constraint structure.
 struct Counter<F> {
     scope: CounterScope<F>,
@@ -255,7 +259,7 @@ struct Counter<F> {
     segments: Vec<SegmentRecord>,
 
     /// When false, `gate` advances geometric sequences but does not increment
-    /// constraint counts.  Used during input and output wire remapping in
+    /// constraint counts.  Used during input wire remapping in
     /// [`routine`](Driver::routine), where only `alloc` (and transitively
     /// `mul`, which calls `gate`) is reachable via [`WireMap::convert_wire`].
     counting: bool,
@@ -272,6 +276,9 @@ struct Counter<F> {
     /// Base for the $d$-wire geometric sequence.
     x3: F,
 
+    /// Base for the geometric sequence of nested routine output wires.
+    x4: F,
+
     /// Multiplier for Horner accumulation, applied per [`enforce_zero`] call.
     ///
     /// [`enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
@@ -314,6 +321,7 @@ impl<F: FromUniformBytes<64>> Counter<F> {
         let y = point(4);
         let h = point(5);
         let one = point(6);
+        let x4 = point(7);
 
         Self {
             scope: CounterScope {
@@ -323,6 +331,7 @@ impl<F: FromUniformBytes<64>> Counter<F> {
                 current_b: x1,
                 current_c: x2,
                 current_d: x3,
+                current_output: x4,
                 result: h,
             },
             num_constraints: 0,
@@ -337,6 +346,7 @@ impl<F: FromUniformBytes<64>> Counter<F> {
             x1,
             x2,
             x3,
+            x4,
             y,
             one,
             h,
@@ -448,6 +458,7 @@ impl<'dr, F: FromUniformBytes<64>> Driver<'dr> for Counter<F> {
                 current_b: self.x1,
                 current_c: self.x2,
                 current_d: self.x3,
+                current_output: self.x4,
                 result: self.h,
             },
         );
@@ -474,56 +485,21 @@ impl<'dr, F: FromUniformBytes<64>> Driver<'dr> for Counter<F> {
         // Restore parent scope.
         self.scope = saved;
 
-        // Remap child output wires as fresh parent allocations.
-        //
-        // The child's a/b/c sequences were reset to (x0, x1, x2) on entry,
-        // so its output wires carry child-local evaluations. After restoring
-        // the parent scope those values are no longer globally distinct —
-        // they could collide with the parent's own wires. Re-allocating via
-        // `map_gadget` assigns each output wire a fresh position in the
-        // parent's geometric sequences.
-        //
-        // The remap calls `alloc` for each output wire, which may call
-        // `gate` internally. This has two side effects on the parent scope:
+        // Remap child output wires to fresh values in the parent scope.
         //
-        // 1. Geometric sequences advance — `current_a`, `current_b`,
-        //    `current_c` move past the remap gates.
-        // 2. `available_d` changes — the remap may consume a pending
-        //    d-wire or create a new one.
+        // The child's sequences were reset on entry, so its output wires carry
+        // child-local evaluations, which after restoring the parent scope could
+        // collide with the parent's own wires. Each output wire is assigned the
+        // next element of a sequence of its own instead: it must not share the
+        // positions of the parent's gates either, as then a routine that uses
+        // the output of a call could not be told apart from one that uses a
+        // gate in its place, nor one that makes gates before the call from one
+        // that makes them afterwards.
         //
-        // Effect (1) is kept; effect (2) is rolled back. The asymmetry is
-        // deliberate:
-        //
-        // Sequences must advance because the remapped output wires need
-        // evaluations that are distinct from each other and from any
-        // subsequent parent allocation. Letting the sequences advance past
-        // the remap positions achieves this — each output wire lands at a
-        // unique geometric position in the parent's sequence space.
-        //
-        // `available_d` must be restored because in the real drivers
-        // (sxy, sx, sy), output wires are received directly from the
-        // child's evaluation — no parent gates are consumed and the
-        // parent's pairing state is untouched. The output remap is a
-        // Counter-only operation that exists solely to assign parent-scope
-        // evaluations to child output wires. If the remap were allowed to
-        // mutate `available_d`, the parent's subsequent allocation pattern
-        // would diverge from the real drivers: a pending d-wire could be
-        // consumed or created by the remap, changing which wire types
-        // subsequent `alloc` calls return. Restoring `available_d` keeps
-        // the parent's pairing trajectory identical to the real drivers.
-        //
-        // After a routine call where the parent had a pending d-wire, the
-        // stashed wire retains its pre-call geometric value while the
-        // sequences have jumped forward past the remap positions. This
-        // creates a non-contiguous gap in the parent's sequence coverage.
-        // The gap is harmless — the stashed wire already has a distinct
-        // value, and Schwartz–Zippel only requires that all wire
-        // evaluations be distinct, not contiguous.
-        let saved_d = self.scope.available_d.take();
-
-        let parent_output = self.uncounted(|c| Ro::Output::map_gadget(&output, c))?;
-
-        self.scope.available_d = saved_d;
+        // As in the real drivers (sxy, sx, sy), which receive output wires
+        // directly from the child's evaluation, no parent gates are consumed
+        // and the parent's pairing state is untouched.
+        let parent_output = Ro::Output::map_gadget(&output, &mut OutputMap(self))?;
 
         Ok(parent_output)
     }
@@ -540,6 +516,21 @@ impl<F: FromUniformBytes<64>> WireMap<F> for Counter<F> {
     }
 }
 
+/// [`WireMap`] for the output wires of a routine call: each is replaced by the
+/// next element of the calling scope's sequence for such wires.
+struct OutputMap<'a, F>(&'a mut Counter<F>);
+
+impl<F: FromUniformBytes<64>> WireMap<F> for OutputMap<'_, F> {
+    type Src = Counter<F>;
+    type Dst = Counter<F>;
+
+    fn convert_wire(&mut self, _: &WireEval<F>) -> Result<WireEval<F>> {
+        let value = self.0.scope.current_output;
+        self.0.scope.current_output *= self.0.x4;
+        Ok(WireEval::Value(value))
+    }
+}
+
 /// Evaluates the constraint topology of a circuit.
 pub fn eval<F: FromUniformBytes<64>, C: Circuit<F>>(circuit: &C) -> Result<CircuitMetrics> {
     eval_raw(&super::raw::CircuitAdapterRef(circuit))
-- 
2.43.0


From c28c4248313623f144b6904b59103252c014427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:39 +0000
Subject: [PATCH 7/7] fix: resolve chains of virtual wires of any length in the
 s(X, y) evaluator

Dropping the last reference to a long chain of sums recursed once for
each of them, and overflowed the stack (about 10,000 sums on a thread
with the default stack), where all the other drivers accept the circuit.
---
 crates/ragu_circuits/src/s/sy.rs | 39 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 8d8afea..274d720 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -283,26 +283,33 @@ impl<F: Field, R: Rank> VirtualTable<'_, F, R> {
     /// to the `self.free` vector) if the count reaches zero.
     ///
     /// Resolved virtual wires distribute their accumulated value to all
-    /// constituent terms, which are then recursively freed. This cascading
+    /// constituent terms, which are then freed in turn. This cascading
     /// resolution eventually reaches allocated wires (A, B, C, D) where the values
-    /// are written to the polynomial.
+    /// are written to the polynomial. It keeps its own stack, because chains of
+    /// virtual wires can be longer than the call stack is deep.
     fn free(&mut self, index: WireIndex) {
-        if let WireIndex::Virtual(index) = index {
-            // Invariant: refcount must be positive before decrementing.
-            assert!(self.wires[index].refcount > 0);
-            self.wires[index].refcount -= 1;
-
-            if self.wires[index].refcount == 0 {
-                let mut terms = vec![];
-                core::mem::swap(&mut terms, &mut self.wires[index].terms);
-                let value = self.wires[index].value;
-                for (wire, coeff) in terms.drain(..) {
-                    self.add(wire, value * coeff);
-                    self.free(wire);
+        let mut pending = vec![];
+        let mut next = Some(index);
+
+        while let Some(index) = next {
+            if let WireIndex::Virtual(index) = index {
+                // Invariant: refcount must be positive before decrementing.
+                assert!(self.wires[index].refcount > 0);
+                self.wires[index].refcount -= 1;
+
+                if self.wires[index].refcount == 0 {
+                    let mut terms = vec![];
+                    core::mem::swap(&mut terms, &mut self.wires[index].terms);
+                    let value = self.wires[index].value;
+                    for (wire, coeff) in terms.drain(..) {
+                        self.add(wire, value * coeff);
+                        pending.push(wire);
+                    }
+                    self.wires[index].value = Coeff::Zero;
+                    self.free.push(index);
                 }
-                self.wires[index].value = Coeff::Zero;
-                self.free.push(index);
             }
+            next = pending.pop();
         }
     }
 
-- 
2.43.0

