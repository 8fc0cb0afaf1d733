From 2e47087342fbe2e7b046a488e5365bb3a161f4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 01/47] fix: EQCHierarchy from member lists: ranks agree on
 whether rank 0 is idle

The root of the scatter called the receive-only side with its own scalar
and decided by the number of classes, which is never zero.
---
 src/base/distributed/eqchierarchy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/base/distributed/eqchierarchy.cpp b/src/base/distributed/eqchierarchy.cpp
index 2039a00..709a93b 100644
--- a/src/base/distributed/eqchierarchy.cpp
+++ b/src/base/distributed/eqchierarchy.cpp
@@ -326,16 +326,18 @@ EQCHierarchy :: EQCHierarchy ()
 
     _isRankZeroIdle = false;
 
-    if (comm.Size())
+    if (comm.Size() > 1)
     {
+      // rank 0 is idle if it neither brought any classes nor got any from others
+      // (GetNEQCS is no use here, class 0 - the purely local one - always exists)
       int numOnRankZero = 0;
 
       if (comm.Rank() == 0)
       {
-        numOnRankZero = GetNEQCS();
+        numOnRankZero = aloc_mems.Size() + all_reps.Size();
       }
 
-      comm.Scatter(numOnRankZero);
+      comm.NgMPI_Comm::Bcast(numOnRankZero, 0);
 
       _isRankZeroIdle = numOnRankZero == 0;
     }
-- 
2.43.0


From 3156caecfe2739904e4f57140c4b4adab9dc7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 02/47] fix: DCCMap: DIS2CO of a cumulated vector must not add
 a stale receive buffer

---
 src/base/linalg/dcc_map.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/base/linalg/dcc_map.cpp b/src/base/linalg/dcc_map.cpp
index bb46e3a..ebe4d04 100644
--- a/src/base/linalg/dcc_map.cpp
+++ b/src/base/linalg/dcc_map.cpp
@@ -85,7 +85,13 @@ StartDIS2CO (BaseVector & vec) const
 #endif
   BufferG(vec);
   if (vec.GetParallelStatus() != DISTRIBUTED) // just nulling-out entries is enough
-    { vec.SetParallelStatus(DISTRIBUTED); return; }
+  {
+    // nothing is received, so ApplyM must not add what an earlier exchange left in the buffer
+    for (auto row : m_buffer)
+      { row = TSCAL(0); }
+    vec.SetParallelStatus(DISTRIBUTED);
+    return;
+  }
   auto ex_dofs = pardofs->GetDistantProcs();
   auto comm = pardofs->GetCommunicator();
   if (g_send.Size())
-- 
2.43.0


From d6ecd2e1b064d635911bad07f50422c3d49533f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 03/47] fix: NgsAMG_Comm::ISend: keep message headers in place
 until they are sent

---
 src/base/distributed/mpiwrap_extension.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index cf87fa6..189796f 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -3,6 +3,8 @@
 
 #include <base.hpp>
 
+#include <deque>
+
 namespace amg
 {
 
@@ -125,10 +127,11 @@ Bcast(tab.AsArray(), root);
 
 private:
   INLINE Timer<TTracing, TTiming>& thack_isend_spm () const { static Timer t("ISend SPM"); return t; }
-  mutable Array<size_t> hacky_w_buffer;
+  // message headers that must stay in place until they are sent (a deque never moves its elements)
+  mutable std::deque<size_t> hacky_w_buffer;
 public:
   void cleanup_hacky_w_buffer ()
-  { hacky_w_buffer = Array<size_t>(0); }
+  { hacky_w_buffer.clear(); }
   template<typename T, typename T2 = decltype(GetMPIType<T>())>
   NG_MPI_Request ISend (const ngla::SparseMatrixTM<T> & spm, int dest, int tag) const {
 #ifdef PARALLEL
@@ -137,8 +140,8 @@ public:
     RegionTimer rt(thack_isend_spm());
     size_t H = spm.Height(); // size_t W = spm.Width();
     // if (H != W) throw Exception("cant rly deal with H!=W ISend"); // need to send W, need temporary mem
-    hacky_w_buffer.Append(spm.Width());
-    auto& W = hacky_w_buffer.Last();
+    hacky_w_buffer.push_back(spm.Width());
+    auto& W = hacky_w_buffer.back();
     NG_MPI_Request req = ISend (W, dest, tag);
     NG_MPI_Request_free(&req);
     req = ISend (spm.GetFirstArray(), dest, tag);
@@ -228,7 +231,8 @@ public:
     if (!valid_comm)
       { return NG_MPI_REQUEST_NULL; }
     NG_MPI_Request req;
-    size_t size = tab.Size();
+    hacky_w_buffer.push_back(tab.Size());
+    auto& size = hacky_w_buffer.back();
     req = ISend(size, dest, tag);
     if (!size) return req;
     NG_MPI_Request_free(&req);
-- 
2.43.0


From 3bfab73d573b3a92d5da7cd4bde29f44b7eecfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 04/47] fix: HybridMatrix of a matrix that is not distributed

---
 src/base/linalg/hybrid_matrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/linalg/hybrid_matrix.cpp b/src/base/linalg/hybrid_matrix.cpp
index 692f923..3b59178 100644
--- a/src/base/linalg/hybrid_matrix.cpp
+++ b/src/base/linalg/hybrid_matrix.cpp
@@ -523,6 +523,9 @@ CreateVector () const
 {
   auto parDOFs = this->GetParallelDofs();
 
+  if (parDOFs == nullptr) // actually just a local matrix
+    { return GetM()->CreateColVector(); }
+
   return CreateSuitableVector(parDOFs->GetNDofLocal(),
                               parDOFs->GetEntrySize(),
                               parDOFs);
@@ -577,7 +580,8 @@ SetMG(shared_ptr<BaseMatrix> aM, shared_ptr<BaseMatrix> aG)
 
   int nzg = (_G != nullptr) ? 1 : 0;
 
-  nzg = this->GetParallelDofs()->GetCommunicator().AllReduce(nzg, NG_MPI_SUM);
+  if (!dummy)
+    { nzg = this->GetParallelDofs()->GetCommunicator().AllReduce(nzg, NG_MPI_SUM); }
 
   g_zero = (nzg == 0);
 }
-- 
2.43.0


From a9815dcf2e9795cd5c3a85305ba7607d68552309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 05/47] fix: BackgroundMPIThread: shutting down must not lose
 the wake-up of the thread

---
 src/base/smoothers/hybrid_base_smoother.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index ad87541..e29c6a9 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -26,7 +26,15 @@ public:
     t = make_unique<std::thread>([this](){ this->thread_fpf(); });
   } // BackgroundMPIThread (..)
 
-  ~BackgroundMPIThread () { thread_ready = true; end_thread = true; cv.notify_one(); t->join(); }
+  ~BackgroundMPIThread ()
+  {
+    { // must not happen between the thread's check of the condition and its going to sleep
+      std::lock_guard<std::mutex> lk(glob_mut);
+      thread_ready = true; end_thread = true;
+    }
+    cv.notify_one();
+    t->join();
+  } // ~BackgroundMPIThread
 
   void thread_fpf () {
 #ifdef USE_TAU
-- 
2.43.0


From b2052c13a3ca95f9045d5a63da85b86e443bcbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 06/47] fix: semi-auxiliary prolongation: do not smooth with a
 matrix that still has to be embedded

Without ParallelDofs the finest level matrix was taken for one in the numbering of
the mesh although it has the size and numbering of the finite element space, so rows
of wrong unknowns, or beyond the mesh, were read.
---
 src/base/factory/base_factory.cpp        | 3 ++-
 src/base/factory/vertex_factory_impl.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index aaa27f7..155b63b 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -391,7 +391,8 @@ shared_ptr<BaseDOFMapStep> BaseAMGFactory::DoStep (shared_ptr<AMGLevel> & f_lev,
     // we need to redistrubte if possible
     state.need_rd |= (goal_meas < c_meas);
     state.need_rd |= meas_fac > O.rd_crs_thresh;
-    prol_map = BuildCoarseDOFMap(state.crs_map, f_cap, state.curr_cap, f_lev->embed_map);
+    // (an embedding that is already contained in the matrix of the capsule does not count)
+    prol_map = BuildCoarseDOFMap(state.crs_map, f_cap, state.curr_cap, f_lev->embed_done ? nullptr : f_lev->embed_map);
 
     if (O.enable_redist && TryContractStep(state)) {
       // contract map constructed successfully
diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..0bd8902 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1875,7 +1875,8 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
 
   /** Because of embedding, this can be nullptr for level 0!
       I think using pure aux on level 0 should not be an issue. **/
-  auto actualFmat = dynamic_pointer_cast<TSPM>(fcap->mat);
+  /** With an embedding, the matrix does not have the numbering (and size) of the mesh, whether or not it is parallel. **/
+  auto actualFmat = (embMap == nullptr) ? dynamic_pointer_cast<TSPM>(fcap->mat) : nullptr;
   shared_ptr<TSPM> fmat = actualFmat;
 
   // if ( baselevel == 0 )
-- 
2.43.0


From 344d758c79f509a9dc9e34026415d46973583556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 07/47] fix: GSS4: take the diagonal of a row-compressed matrix
 from the right column

---
 src/base/smoothers/gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 4386934..103623d 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -428,7 +428,7 @@ GSS4<TM> :: GSS4 (shared_ptr<SparseMatrix<TM>> A, FlatArray<TM> repl_diag, share
       if (repl_diag.Size())
         { dinv[i] = repl_diag[xdofs[i]]; }
       else
-        { dinv[i] = ncA(i, i); } // yeah, that is correct
+        { dinv[i] = ncA(i, xdofs[i]); } // only rows are compressed, not columns
       if (pinv)
         { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
       else
@@ -517,7 +517,7 @@ void GSS4<TM> :: CalcDiags ()
   ParallelForRange (IntRange(dinv.Size()), [&] ( IntRange r ) {
 LocalHeap lh = glh.Split();
 for (auto i : r) {
-  dinv[i] = ncA(i, i);
+  dinv[i] = ncA(i, xdofs[i]); // only rows are compressed, not columns
   if (pinv)
     { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
   else
-- 
2.43.0


From 6322f717534f399b7048c4989b25f7d0293d8a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 08/47] fix: BSmoother2: residual with respect to the actual
 matrix if blocks overlap or do not cover all rows

---
 src/base/smoothers/loc_block_gssmoother.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..bc55e7a 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -49,6 +49,9 @@ namespace amg
     height = A.Height();
     maxbs = 0;
 
+    if (!blocks_no)
+      { this->SetSysMat(_spmat); }
+
     bool have_md = md.Size() > 0;
 
     auto block_array = std::move(_block_array);
@@ -317,6 +320,9 @@ namespace amg
   template<class TM>
   shared_ptr<BaseMatrix> BSmoother2<TM> :: GetAMatrix () const
   {
+    // the blocks only hold every row of the matrix exactly once if they cover all rows and do not overlap
+    if (!blocks_no)
+      { return sysmat; }
     return make_shared<BSmoother2SysMat<TM>>(const_pointer_cast<BSmoother2<TM>>(dynamic_pointer_cast<const BSmoother2<TM>>(shared_from_this())));
   } // BSmoother2::GetAMatrix
 
-- 
2.43.0


From e14fd02d872546b6970f5a5ca910320eca8935b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 09/47] fix: direct inverse with fallback: an all-zero matrix
 is singular

---
 src/base/utils/utils_denseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 37e85dc..9e2966f 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -300,7 +300,7 @@ CPI_TN (FlatMatrix<TSCAL> A, LocalHeap &lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
@@ -498,7 +498,7 @@ TryDirectInverse_simple (FlatMatrix<TSCAL> A, LocalHeap & lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
-- 
2.43.0


From e225187facd3308f2327c72df91e323f0a382655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 10/47] fix: BSmoother2 without overlap: forward/backward
 kernels for zero initial guess were swapped, backward residual used the wrong
 rows

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 743f438..e49f34d 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -373,7 +373,7 @@ namespace amg
       { bigres(dnr) = 0.0; }
     // res -= L x_new
     for (auto k : Range(dofnrs)) {
-      for (auto l : Range(firsti[nds], firsti[nds+1]))
+      for (auto l : Range(firsti[nds+k], firsti[nds+k+1]))
 	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
@@ -763,9 +763,9 @@ namespace amg
 	  FlatVector<TV> hb = hymax.Range(0, n);
 	  if (zig) { // zero initial guess - save U/L part of residuum
 	    if (reverse)
-	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
-	    else
 	      { blocks[block_nr].RichardsonUpdate_BW_zig(1.0, hx, fx, hb, fb); }
+	    else
+	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
 	  }
 	  else
 	    { blocks[block_nr].RichardsonUpdate(1.0, hx, fx, hb, fb); }
-- 
2.43.0


From 36bf06aed4defc7988b265b55898eaa83701e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 11/47] fix: BSmoother: enough scratch memory for the
 pseudo-inverse of tiny blocks

---
 src/base/smoothers/block_gssmoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/block_gssmoother.cpp b/src/base/smoothers/block_gssmoother.cpp
index 2b4f7ac..01fe334 100644
--- a/src/base/smoothers/block_gssmoother.cpp
+++ b/src/base/smoothers/block_gssmoother.cpp
@@ -72,7 +72,7 @@ BSmoother (shared_ptr<SparseMatrix<TM>> _spmat,
   ParallelJob([&] (const TaskInfo & ti)
   {
     constexpr int BS = ngbla::Height<TM>();
-    LocalHeap lh(3*sqr(sizeof(double)*maxbs*ngbla::Height<TM>()), "AAA", false);
+    LocalHeap lh(64*1024 + 3*sqr(sizeof(double)*maxbs*ngbla::Height<TM>()), "AAA", false); // tiny blocks need more than the quadratic term
     for (int block_nr : sl)
     {
       HeapReset hr(lh);
-- 
2.43.0


From 6a599494c9a819df992eabd88ba85156a5137701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 12/47] fix: BSmoother2 without overlap: residual updates need
 the transposed entries

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index e49f34d..15512cd 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -326,7 +326,7 @@ namespace amg
     // res -= (D+L^T) x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -374,7 +374,7 @@ namespace amg
     // res -= L x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -408,7 +408,7 @@ namespace amg
     // res -= L^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -442,7 +442,7 @@ namespace amg
     // res -= U^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -508,7 +508,7 @@ namespace amg
     // res -= U (x_new-x)
     for (auto k : Range(dofnrs))
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
   } // BSBlock::RichardsonUpdate_FW_zig
 
 
-- 
2.43.0


From f790dd87b7fa988c640e79a71ee4c94a5e269cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 13/47] fix: HiptMairSmoother: x is not zero any more after the
 first half of the backward smooth

---
 src/base/smoothers/base_smoother.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/base_smoother.cpp b/src/base/smoothers/base_smoother.cpp
index d7a0057..c2acfa4 100644
--- a/src/base/smoothers/base_smoother.cpp
+++ b/src/base/smoothers/base_smoother.cpp
@@ -291,7 +291,9 @@ void HiptMairSmoother :: SmoothBack (BaseVector &x, const BaseVector &b, BaseVec
   {
     RegionTimer rt(tr);
 
-    smrange->SmoothBack(x, b, res, resUp, resUp, x_zero);
+    smrange->SmoothBack(x, b, res, resUp, resUp, xZero);
+
+    xZero = false;
   }
 
   resUp = CalcPotRhs(x, b, res, *rhspot, resUp, xZero, resUp);
-- 
2.43.0


From f74b322289a9b3b7e74a4493fc1268da19237a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 14/47] fix: HybridBaseSmoother: residual updates start from a
 distributed residual

---
 src/base/smoothers/hybrid_base_smoother.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index e29c6a9..5c0f069 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -327,7 +327,9 @@ SmoothImplRES (BaseVector       &x,
 
   // most of the time status is correct here and this is a noop
   x.Cumulate();
-  // res.Distribute(); // no! can use it if cumulated (so basically never)
+  // the local updates turn only the masters' values into the new residual, which
+  // is not a valid update of full values
+  res.Distribute();
 
   gx.SetParallelStatus(DISTRIBUTED);
 
-- 
2.43.0


From 20099b7f242e466c47e0fb1daea02e4253e8f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 15/47] fix: NgsAMG_Comm::Send of a sparse matrix: wait for all
 parts of the message

---
 src/base/distributed/mpiwrap_extension.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index 189796f..0d47e95 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -171,8 +171,15 @@ public:
     if (!valid_comm)
       { return; }
     RegionTimer rt(thack_send_spm());
-    NG_MPI_Request req = ISend(spm, dest, tag); // well this is just lazy ...
-    NG_MPI_Wait(&req, NG_MPI_STATUS_IGNORE);
+    // wait for every part, not only for the last one
+    size_t H = spm.Height(), W = spm.Width();
+    Send(W, dest, tag);
+    Send(spm.GetFirstArray(), dest, tag);
+    size_t nzes = spm.GetFirstArray().Last();
+    if ( (H > 0) && (W > 0) ) {
+Send(FlatArray<int>(nzes, spm.GetRowIndices(0).Data()), dest, tag);
+Send(FlatArray<T>(nzes, spm.GetRowValues(0).Data()), dest, tag);
+    }
 #endif
   }
 
-- 
2.43.0


From 3ba0b1bf95f7ceb520ec08aba72c809f4a2d45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 16/47] fix: weights of edges that change class when a mesh is
 redistributed were counted once per sharing process

---
 src/base/coarsening/grid_contract.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/grid_contract.hpp b/src/base/coarsening/grid_contract.hpp
index c3de741..905bd85 100644
--- a/src/base/coarsening/grid_contract.hpp
+++ b/src/base/coarsening/grid_contract.hpp
@@ -191,7 +191,8 @@ public:
     // cout << endl;
     // cout << "MND2" << endl;
 
-    if(!anodes.Size())
+    // distributed values already add up to the total, summing them again would count them once per sharing proc
+    if(!anodes.Size() || stat == DISTRIBUTED)
       { return; } // no annoying nodes for this type!!
     
     auto cneqcs = c_eqc_h->GetNEQCS();
-- 
2.43.0


From 564e99337d97b0afacf638749544565810577a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 17/47] fix: preconditioner set-up crashed when no coarse level
 can be built

---
 src/base/precond/amg_pc.cpp | 58 +++++++++++++++++++++++++++++++++++++
 src/base/precond/amg_pc.hpp |  3 ++
 2 files changed, 61 insertions(+)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index 4fa6229..ead2889 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -593,6 +593,9 @@ void BaseAMGPC :: BuildAMGMat ()
 
   GetBaseFactory().SetUpLevels(amg_levels, dof_map);
 
+  if ( dof_map->GetNSteps() == 0 )
+    { AddTrivialCoarseLevel(amg_levels, *dof_map); }
+
   /** Smoothers **/
   Array<shared_ptr<BaseSmoother>> smoothers = BuildSmoothers(amg_levels, dof_map);
 
@@ -736,6 +739,61 @@ void BaseAMGPC :: BuildAMGMat ()
 } // BaseAMGPC::BuildAMGMAt
 
 
+void
+BaseAMGPC::
+AddTrivialCoarseLevel (Array<shared_ptr<BaseAMGFactory::AMGLevel>> &amg_levels,
+                       DOFMap                                      &dof_map)
+{
+  auto & fLev = *amg_levels[0];
+
+  bool const isFESpaceLevel = !options->smooth_after_emb;
+
+  auto cLev = make_shared<BaseAMGFactory::AMGLevel>();
+
+  cLev->level           = 1;
+  cLev->cap             = GetBaseFactory().AllocCap();
+  cLev->cap->baselevel  = 1;
+  cLev->cap->mesh       = fLev.cap->mesh;
+  cLev->cap->eqc_h      = fLev.cap->eqc_h;
+  cLev->cap->mat        = isFESpaceLevel ? my_dynamic_pointer_cast<BaseSparseMatrix>(GetLocalMat(finest_mat), "AddTrivialCoarseLevel")
+                                         : fLev.cap->mat;
+  cLev->cap->uDofs      = isFESpaceLevel ? MatToUniversalDofs(*finest_mat, DOF_SPACE::ROWS)
+                                         : fLev.cap->uDofs;
+  cLev->cap->free_nodes = GetFreeDofs(fLev);
+
+  DispatchSquareMatrix(*cLev->cap->mat, [&](auto const &A, auto CBS)
+  {
+    constexpr int BS = CBS;
+
+    if constexpr( IsProlMapCompiled<BS, BS>() )
+    {
+      Array<int> perow(A.Height());
+      perow = 1;
+
+      auto identity = make_shared<SparseMat<BS, BS>>(perow, A.Height());
+
+      for (auto k : Range(A.Height()))
+      {
+        identity->GetRowIndices(k)[0] = k;
+        SetIdentity(identity->GetRowValues(k)[0]);
+      }
+
+      auto step = make_shared<ProlMap<StripTM<BS, BS>>>(identity, cLev->cap->uDofs, cLev->cap->uDofs);
+
+      step->Finalize();
+
+      dof_map.AddStep(step);
+    }
+    else
+    {
+      throw Exception("Failed to construct any coarse levels!");
+    }
+  });
+
+  amg_levels.Append(cLev);
+} // BaseAMGPC::AddTrivialCoarseLevel
+
+
 std::tuple<std::shared_ptr<SparseMat<3, 3>>,
            UniversalDofs,
            std::shared_ptr<BitArray>>
diff --git a/src/base/precond/amg_pc.hpp b/src/base/precond/amg_pc.hpp
index b90f5fd..975cdab 100644
--- a/src/base/precond/amg_pc.hpp
+++ b/src/base/precond/amg_pc.hpp
@@ -178,6 +178,9 @@ namespace amg
     virtual void Finalize ();
     virtual void BuildAMGMat ();
 
+    // used if no proper coarse level can be built
+    void AddTrivialCoarseLevel (Array<shared_ptr<BaseAMGFactory::AMGLevel>> &amg_levels, DOFMap &dof_map);
+
     virtual void InitFinestLevel (BaseAMGFactory::AMGLevel & finest_level);
     virtual shared_ptr<BaseDOFMapStep> BuildEmbedding (BaseAMGFactory::AMGLevel & finest_level) = 0;
 
-- 
2.43.0


From b1c8df497c181e5ac844a95e1b09933958a87e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 18/47] fix: SPW agglomeration: out-of-bounds access on
 processes that share no vertices in a parallel run

---
 src/base/coarsening/spw_agg_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 5ead0f1..133541f 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -72,13 +72,14 @@ public:
       // we are the first map - construct cv_to_eqc. for other maps, concatenate it!
       auto vMap = GetMap<NT_VERTEX>();
 
-      if ( eqc_h->GetNEQCS() > 1 )
+      // needed in all later rounds, even if nothing is shared with anyone
+      if ( eqc_h->IsTrulyParallel() )
       {
         cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
         cv_to_eqc = 0;
 
         // works as long as we only go up/down in hierarchy
-        pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
+        pbtm->template ApplyEQ<NT_VERTEX>(Range(size_t(1), std::max(size_t(1), eqc_h->GetNEQCS())), [&](auto eqc, auto fVNr)
         {
           auto cVNr = vMap[fVNr];
 
-- 
2.43.0


From 57509b2c55603382651b5528c06f820db393e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 19/47] fix: block smoother blocks: free vertices that are
 mapped to no coarse vertex were never smoothed

---
 src/base/precond/amg_pc_vertex_impl.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 6f085b9..791c59e 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -1187,6 +1187,16 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
   int n_blocks = NCV;
   // if (amg_level.disc_map != nullptr)
     // { n_blocks += amg_level.disc_map->GetNDroppedNodes<NT_VERTEX>(); }
+
+  // free vertices that are not mapped to the coarse level are in none of the agglomerates, give them blocks of their own
+  auto vmap = amg_level.crs_map->GetMap<NT_VERTEX>();
+  auto free_verts = amg_level.cap->free_nodes;
+  Array<int> v2block(vmap.Size());
+  for (auto k : Range(vmap)) {
+    bool const needs_block = (vmap[k] == -1) && ( (free_verts == nullptr) || free_verts->Test(k) );
+    v2block[k] = needs_block ? n_blocks++ : vmap[k];
+  }
+
   TableCreator<int> cblocks(n_blocks);
   auto it_blocks = [&](auto NV, auto map_v) LAMBDA_INLINE {
     for (auto k : Range(NV)) {
@@ -1212,7 +1222,6 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
       }
     }
   };
-  auto vmap = amg_level.crs_map->GetMap<NT_VERTEX>();
 
   // TODO: clean BGS-blocks for pre/post L0 emb, enable BGS for pre-emb when smooth_after_emb (somehow?)
   //                add something like pre_emb_sm_type option, add a "GetPreEmbBlocks", route getgsblocks there
@@ -1220,7 +1229,7 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
 
   for (; !cblocks.Done(); cblocks++) {
     if (true) { // (amg_level.disc_map == nullptr) {
-      auto map_v = [&](auto v) -> int LAMBDA_INLINE { return vmap[v]; };
+      auto map_v = [&](auto v) -> int LAMBDA_INLINE { return v2block[v]; };
       if (amg_level.level == 0 && (!O.smooth_after_emb)) // if smooth_after_emb, need mesh-canonic blocks
         { it_blocks_2(vmap.Size(), map_v); }
       else
-- 
2.43.0


From 51694e3f2d6dab0c4d31638b973a8f783236ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 20/47] fix: plate-test agglomeration: shared vertices were
 mapped to no coarse vertex

---
 src/base/coarsening/plate_test_agg_impl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/plate_test_agg_impl.hpp b/src/base/coarsening/plate_test_agg_impl.hpp
index f5f1625..5e004ee 100644
--- a/src/base/coarsening/plate_test_agg_impl.hpp
+++ b/src/base/coarsening/plate_test_agg_impl.hpp
@@ -47,6 +47,9 @@ FormAgglomerates (Array<Agglomerate> & agglomerates, Array<int> & v_to_agg)
 
   Array<int> newMems(100);
 
+  auto const &eqc_h = *M.GetEQCHierarchy();
+
+  // agglomerates are formed by the master of their center, and members must not be shared with anyone who does not have the center
   int cntAggs = 0;
   M.template ApplyEQ2<NT_VERTEX>([&](auto eq, auto eqVs)
   {
@@ -59,6 +62,7 @@ FormAgglomerates (Array<Agglomerate> & agglomerates, Array<int> & v_to_agg)
 
         agglomerates.Append(Agglomerate(vs, aggId));
         Agglomerate &agg(agglomerates.Last());
+        v_to_agg[vs] = aggId;
 
         auto const posZ = getPos(vs);
 
@@ -69,7 +73,10 @@ FormAgglomerates (Array<Agglomerate> & agglomerates, Array<int> & v_to_agg)
           {
             for (auto neib : econ.GetRowIndices(mem))
             {
-              if ( isFree(neib) && (getPos(neib) == posZ) )
+              auto const eqNeib = M.template GetEQCOfNode<NT_VERTEX>(neib);
+
+              if ( isFree(neib) && (getPos(neib) == posZ) &&
+                   eqc_h.IsMasterOfEQC(eqNeib) && eqc_h.IsLEQ(eqNeib, eq) )
               {
                 v_to_agg[neib] = aggId;
                 insert_into_sorted_array_nodups(neib, newMems);            }
@@ -83,7 +90,7 @@ FormAgglomerates (Array<Agglomerate> & agglomerates, Array<int> & v_to_agg)
         }
       }
     }
-  }, false);
+  }, true); // master only
 
 }
 
-- 
2.43.0


From dda47e72a7bbe02e40c76bbff20d26c50c0d5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 21/47] fix: MIS agglomeration: a constrained vertex became the
 center of an agglomerate when its neighbour hangs on it

---
 src/base/coarsening/mis_agg_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 5df1e3c..47b749a 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -758,7 +758,7 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
         } else { // neib is not in an agg - force start a new one at neib and add this vertex (which must be OK!)
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
-          if ( is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
+          if ( (!marked.Test(N)) && is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From 7ad64b414ea41ed90d80ff2faca10d74608779ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:24 +0000
Subject: [PATCH 22/47] fix: smooth_after_emb crashed when there is no
 embedding

---
 src/base/precond/amg_pc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index ead2889..9f1aef6 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -599,7 +599,8 @@ void BaseAMGPC :: BuildAMGMat ()
   /** Smoothers **/
   Array<shared_ptr<BaseSmoother>> smoothers = BuildSmoothers(amg_levels, dof_map);
 
-  if ( options->smooth_after_emb )
+  // without an embedding, the finest level is smoothed anyways
+  if ( options->smooth_after_emb && ( this->cachedEmbMap != nullptr ) )
   {
     // TODO: improve logging for smooth_after_emb
 
-- 
2.43.0


From 376fab09d93035f1de1efbfbf9803f6e1439e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 23/47] fix: elasticity coarse vertex weights: connections to
 ground act at the coarse vertex position

---
 src/elasticity/elasticity_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_impl.hpp b/src/elasticity/elasticity_impl.hpp
index 8b01407..f86d478 100644
--- a/src/elasticity/elasticity_impl.hpp
+++ b/src/elasticity/elasticity_impl.hpp
@@ -65,7 +65,8 @@ void AttachedEED<DIM> :: map_data (const BaseCoarseMap & cmap, AttachedEED<DIM>
       if (cvs[0] != cvs[1]) { // max. and min. one is -1
         int l = (cvs[0] == -1) ? 1 : 0;
         int cvnr = v_map[fedge.v[l]];
-        ElasticityAMGFactory<DIM>::ENERGY::CalcQij(fvd[fedge.v[l]], fvd[fedge.v[1-l]], QHh); // from [l] to [1-l] should be correct
+        auto fmid = ElasticityAMGFactory<DIM>::ENERGY::CalcMPData(fvd[fedge.v[l]], fvd[fedge.v[1-l]]);
+        ElasticityAMGFactory<DIM>::ENERGY::CalcQHh(cvd[cvnr], fmid, QHh); // from coarse vertex to edge-midpoint
         ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, add_cvw[cvnr], QHh, fed[fedge.id]);
       }
     }
-- 
2.43.0


From 8529a286f22313762bccffdf8fbaba30fe4e4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:05 +0000
Subject: [PATCH 24/47] fix: elasticity coarse vertices: take the position of
 the aggregate's center and count every member's weight once, also in parallel

---
 src/elasticity/elasticity_impl.hpp | 45 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/elasticity/elasticity_impl.hpp b/src/elasticity/elasticity_impl.hpp
index f86d478..9961048 100644
--- a/src/elasticity/elasticity_impl.hpp
+++ b/src/elasticity/elasticity_impl.hpp
@@ -140,27 +140,19 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
 
   cdata = 0.0;
 
-  CM.template ApplyEQ2<NT_VERTEX> ( [&](auto eqc, auto cVerts) LAMBDA_INLINE
+  /** all procs need the position of the coarse vertex (that of the agg center) to add weights */
+  for (auto cV : Range(cdata))
   {
-    bool const isMaster = eqc_h.IsMasterOfEQC(eqc);
+    auto agg = aggs[cV];
+    auto fV  = agg[0];
 
-    for (auto cV : cVerts)
-    {
-      if (isMaster)
-      {
-        auto agg = aggs[cV];
-        auto fV  = agg[0];
+    for (auto v : agg)
+      if (ctrs.Test(v))
+        { fV = v; }
 
-        cdata[cV].pos         = data[fV].pos;
-        cdata[cV].wt          = data[fV].wt;
-        cdata[cV].rot_scaling = data[fV].rot_scaling;
-      }
-      else
-      {
-        cdata[cV] = 0.0;
-      }
-    }
-  }, false);
+    cdata[cV].pos         = data[fV].pos;
+    cdata[cV].rot_scaling = data[fV].rot_scaling;
+  }
 
   // M.template ApplyEQ<NT_VERTEX> ([&](auto eqc, auto v) LAMBDA_INLINE
   // {
@@ -177,15 +169,28 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
 
   M.template ApplyEQ<NT_VERTEX> ([&](auto eqc, auto v) LAMBDA_INLINE
   {
-    /** add l2 weights for non ctrs - I already need crs pos here **/
+    /** add l2 weights - I already need crs pos here **/
     auto cv = vmap[v];
-    if ( ( cv != -1 ) && ( !ctrs.Test(v) ) )
+    if ( cv != -1 )
     {
       ElasticityAMGFactory<DIM>::ENERGY::CalcQHh(cdata[cv], data[v], Q);
       ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, cdata[cv].wt, Q, data[v].wt);
     }
   }, true);
 
+  /** DISTRIBUTED - only the master keeps position **/
+  CM.template ApplyEQ2<NT_VERTEX> ( [&](auto eqc, auto cVerts) LAMBDA_INLINE
+  {
+    if (!eqc_h.IsMasterOfEQC(eqc))
+    {
+      for (auto cV : cVerts)
+      {
+        cdata[cV].pos         = 0.0;
+        cdata[cV].rot_scaling = 0.0;
+      }
+    }
+  }, false);
+
   cevd.SetParallelStatus(DISTRIBUTED);
 } // AttachedEVD::map_data
 
-- 
2.43.0


From 6f9f9ce26b69e54371f26fe2359bef6dc1a35bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 25/47] fix: CompressAGeneric dropped all negative scalar
 entries

---
 src/base/linalg/utils_sparseLA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 7cecef3..3fe7852 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -963,7 +963,7 @@ template<int N, int M> INLINE double abssum_tm(Mat<N, M, double> const &x)
   return s;
 }
 
-INLINE double abssum_tm(double const &x) { return x; }
+INLINE double abssum_tm(double const &x) { return abs(x); }
 
 template<class TSPM>
 shared_ptr<TSPM>
-- 
2.43.0


From 71fe0abe1cc4ad2cbee4b617b63d9bbd8114aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 26/47] fix: sum of sparse matrices took the values of the
 second one from the first one

---
 src/base/linalg/utils_sparseLA.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 3fe7852..d65586b 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -174,22 +174,22 @@ AddMergeSPM (double const &alpha,
       {
         for (auto j : Range(risA))
         {
-          lam(k, risA[j], rvsA[j]);
+          lam(k, risA[j], alpha * rvsA[j]);
         }
       }
       else if (risA.Size() == 0)
       {
         for (auto j : Range(risB))
         {
-          lam(k, risB[j], rvsB[j]);
+          lam(k, risB[j], beta * rvsB[j]);
         }
       }
       else
       {
         iterate_ABC(risA, risB,
-          [&](auto const &idxA) { lam(k, risA[idxA], rvsA[idxA]); },
-          [&](auto const &idxB) { lam(k, risB[idxB], rvsA[idxB]); },
-          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], rvsA[idxA] + rvsA[idxB]); });
+          [&](auto const &idxA) { lam(k, risA[idxA], alpha * rvsA[idxA]); },
+          [&](auto const &idxB) { lam(k, risB[idxB], beta * rvsB[idxB]); },
+          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], alpha * rvsA[idxA] + beta * rvsB[idxB]); });
       }
     }
   };
-- 
2.43.0


From 58b1b84d78ec7ad90c5da0c4b524bd3dd8e7f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 27/47] fix: BaseMatrixToSparse ignored the coefficients of a
 SumMatrix (A - B became A + B)

---
 src/base/linalg/utils_sparseLA.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index d65586b..24f1481 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -1151,6 +1151,17 @@ makeLOToHOFacetEmbedding(shared_ptr<FESpace> orig,
 }
 
 
+// SumMatrix has no access to its coefficients
+template<double SumMatrix::*A, double SumMatrix::*B>
+struct SumMatrixCoefficients
+{
+  friend std::tuple<double, double> GetSumCoefficients (SumMatrix const &sum) { return std::make_tuple(sum.*A, sum.*B); }
+};
+
+std::tuple<double, double> GetSumCoefficients (SumMatrix const &sum);
+
+template struct SumMatrixCoefficients<&SumMatrix::a, &SumMatrix::b>;
+
 shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A)
 {
   // std::cout << " BaseMatrixToSparse " << A << endl;
@@ -1276,7 +1287,9 @@ shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A)
       B = BaseMatrixToSparse(B);
     }
 
-    return AddABGeneric(1.0, A, 1.0, B);
+    auto [alpha, beta] = GetSumCoefficients(*sumA);
+
+    return AddABGeneric(alpha, A, beta, B);
   }
   else if (auto scaledA = dynamic_pointer_cast<VScaleMatrix<double>>(A))
   {
-- 
2.43.0


From 817740b97c43a61d7f968c189fd884ef44ca26ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 28/47] fix: createSparseIdentity had all entries in column 1,
 full blocks and a type that is not handled

---
 src/base/linalg/utils_sparseLA.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 24f1481..4eda07b 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -836,7 +836,7 @@ EmbedSparseMatrix(shared_ptr<BaseMatrix> A, IntRange r, int const bigH)
 
 template<int BS>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BS, BS, double>>>
+shared_ptr<stripped_spm<Mat<BS, BS, double>>>
 createSparseIdentityImpl(int H, BitArray const *onRows)
 {
   Array<int> perow(H); perow = 1;
@@ -852,14 +852,14 @@ createSparseIdentityImpl(int H, BitArray const *onRows)
     }
   }
 
-  auto spI = make_shared<stripped_spm_tm<Mat<BS, BS, double>>>(perow, H);
+  auto spI = make_shared<stripped_spm<Mat<BS, BS, double>>>(perow, H);
 
   for (auto k : Range(perow))
   {
     if ( (onRows == nullptr) || (onRows->Test(k) ) )
     {
-      spI->GetRowIndices(k)[0] = 1;
-      spI->GetRowValues(k)[0] = 1.0;
+      spI->GetRowIndices(k)[0] = k;
+      SetIdentity(spI->GetRowValues(k)[0]);
     }
   }
 
-- 
2.43.0


From a046e6f123f13eaddd1b3d7cfc76819e22511479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 29/47] fix: conversion of a BlockMatrix to a sparse matrix
 used wrong offsets, rows and sizes

---
 src/base/linalg/utils_sparseLA.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 4eda07b..c6deae8 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -505,7 +505,7 @@ shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A);
 
 template<int BH, int BW>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BH, BW, double>>>
+shared_ptr<stripped_spm<Mat<BH, BW, double>>>
 Block2SparseMatrix_impl (BlockMatrix &A)
 {
   typedef stripped_spm_tm<Mat<BH, BW, double>> TSPM;
@@ -559,8 +559,8 @@ Block2SparseMatrix_impl (BlockMatrix &A)
 
   for (auto j : Range(W))
   {
-    rowOff[j] = totalH;
-    totalH += getBlockInCol(j)->Width();
+    colOff[j] = totalW;
+    totalW += getBlockInCol(j)->Width();
   }
 
   auto iterateBlockWise = [&](auto lam)
@@ -591,7 +591,7 @@ Block2SparseMatrix_impl (BlockMatrix &A)
     }
   });
 
-  auto spA = make_shared<stripped_spm_tm<Mat<BH, BW, double>>>(perow, totalW);
+  auto spA = make_shared<stripped_spm<Mat<BH, BW, double>>>(perow, totalW);
 
   perow = 0;
 
@@ -602,15 +602,16 @@ Block2SparseMatrix_impl (BlockMatrix &A)
       auto Akj_ris = Akj.GetRowIndices(kk);
       auto Akj_rvs = Akj.GetRowValues(kk);
 
-      auto ris = spA->GetRowIndices(kk);
-      auto rvs = spA->GetRowValues(kk);
+      int const row = offRow + kk;
+
+      auto ris = spA->GetRowIndices(row);
+      auto rvs = spA->GetRowValues(row);
 
-      for (auto l : Range(ris))
+      for (auto l : Range(Akj_ris))
       {
-        int const row = offRow + kk;
         int const inRow = perow[row]++;
-        ris[inRow] = offCol + Akj_ris[j];
-        rvs[inRow] = Akj_rvs[j];
+        ris[inRow] = offCol + Akj_ris[l];
+        rvs[inRow] = Akj_rvs[l];
       }
     }
   });
@@ -702,8 +703,8 @@ Block2SparseMatrix (BlockMatrix &A)
 
         if (kjPar)
         {
-          rowPds[k] = parAkj->GetRowParallelDofs();
-          colPds[j] = parAkj->GetColParallelDofs();
+          rowPds[j] = parAkj->GetRowParallelDofs();
+          colPds[k] = parAkj->GetColParallelDofs();
         }
 
         if (blockPar == -1)
@@ -767,8 +768,8 @@ Block2SparseMatrix (BlockMatrix &A)
   }
 
   return WrapParallelMatrix(singleSparseMat,
-                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Height(), BH),
-                            UniversalDofs(fusedColParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedColParDOFs, singleSparseMat->Height(), BH),
                             blockOp);
 }
 
-- 
2.43.0


From 541e90b59f05545d0c2b4b952e83ab2e9acb0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 30/47] fix: CheckForSSPD<float> used the garbage returned by
 slange_ and accepted indefinite matrices

---
 src/base/utils/utils_denseLA.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 9e2966f..487f8f9 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -154,22 +154,18 @@ bool CheckForSSPD (FlatMatrix<TSCAL> A, LocalHeap &lh)
 
   // cout << " diff: " << endl << A2 << endl;
 
-  TSCAL diffnorm;
-
-  char norm = 'm'; // max norm
-  if constexpr(is_same<double, TSCAL>::value)
-  {
-    diffnorm = dlange_(&norm, &n, &n, &A2(0,0), &n, NULL);
-  }
-  else
+  // check max norm of the residuum entry by entry, NOT via Xlange: with MKL, slange_ returns
+  // a float, but according to its prototype (clapack.h) it returns a double
+  for (auto k : Range(n))
   {
-    diffnorm = slange_(&norm, &n, &n, &A2(0,0), &n, NULL);
+    for (auto j : Range(n))
+    {
+      if ( !( abs(A2(k, j)) < eps ) )
+        { return false; }
+    }
   }
 
-  // cout << " diffnorm: " << diffnorm << endl;
-  // cout << " diffnorm rel: " << diffnorm/eps << endl;
-
-  return diffnorm < eps;
+  return true;
 } // CheckForSSPD
 
 template bool CheckForSSPD<float> (FlatMatrix<float>  A, LocalHeap &lh);
-- 
2.43.0


From 2e536351eaa232623284e513c31702dc3139219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 31/47] fix: CheckForSSPD accepted indefinite matrices with
 zero diagonal

---
 src/base/utils/utils_denseLA.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 487f8f9..c8e4019 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -125,8 +125,18 @@ bool CheckForSSPD (FlatMatrix<TSCAL> A, LocalHeap &lh)
 
   if (info == 0)
     { return true; }
-  else if (rank == 0) // zero matrix is SSPD...
-    { return true; }
+  else if (rank == 0) // zero diagonal - only the zero matrix is SSPD...
+  {
+    for (auto k : Range(n))
+    {
+      for (auto j : Range(n))
+      {
+        if ( !( abs(A2(k, j)) <= AbsZeroTol<TSCAL>() ) )
+          { return false; }
+      }
+    }
+    return true;
+  }
   else if (info < 0) // something went horribly wrong - should probably throw an exception...
     { return false; }
 
-- 
2.43.0


From 6f737dd674d4eb2a54a8d0b1d8880aebcd7a22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 32/47] fix: pseudo inverse of large singular matrices:
 rounding errors in the last pivots were inverted

---
 src/base/utils/utils_denseLA.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index c8e4019..4b459e2 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -438,6 +438,16 @@ TryDirectInverse_Lapack (FlatMatrix<TSCAL> A, LocalHeap & lh)
   if (info != 0)
     { return false; }
 
+  // pivots of a singular matrix can be > 0 because of rounding errors
+  TSCAL eps = 0;
+  for (auto k : Range(n))
+    { eps = max(eps, A(k, k)); }
+  eps = RelZeroTol<TSCAL>() * eps;
+
+  for (auto k : Range(n))
+    if ( !( a(k, k) * a(k, k) > eps ) )
+      { return false; }
+
   if constexpr(std::is_same_v<TSCAL, double>)
   {
     dpotri_ (&uplo, &n, &a(0,0), &lda, &info);
-- 
2.43.0


From 4bb82ac4526143ff630dc3f1681655f34bd3585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 33/47] fix: CalcPseudoInverseNew of a zero scalar or 1x1
 matrix was inf

---
 src/base/utils/utils_denseLA.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index abfd819..b590489 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -708,11 +708,11 @@ void CalcPseudoInverseNew (FlatMatrix<Mat<N, N, TSCAL>> mat, LocalHeap & lh)
   }
 }
 
-INLINE void CalcPseudoInverseNew (double &mat, LocalHeap &lh) { mat = 1.0/mat; }
-INLINE void CalcPseudoInverseNew (float  &mat, LocalHeap &lh) { mat = 1.0/mat; }
+INLINE void CalcPseudoInverseNew (double &mat, LocalHeap &lh) { mat = ( mat > AbsZeroTol<double>() ) ? 1.0/mat : 0.0; }
+INLINE void CalcPseudoInverseNew (float  &mat, LocalHeap &lh) { mat = ( mat > AbsZeroTol<float>() ) ? 1.0/mat : 0.0; }
 
-INLINE void CalcPseudoInverseNew (double &mat) { mat = 1.0/mat; }
-INLINE void CalcPseudoInverseNew (float  &mat) { mat = 1.0/mat; }
+INLINE void CalcPseudoInverseNew (double &mat) { mat = ( mat > AbsZeroTol<double>() ) ? 1.0/mat : 0.0; }
+INLINE void CalcPseudoInverseNew (float  &mat) { mat = ( mat > AbsZeroTol<float>() ) ? 1.0/mat : 0.0; }
 
 template<int N, class TSCAL>
 INLINE void
-- 
2.43.0


From 4e16cbfb11658fd7e14d21e49191f49d18f72d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 34/47] fix: MIN_EV_HARM2 took rounding errors for eigenvalues
 when the ranges of A and B do not intersect

---
 src/base/utils/utils_denseLA.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index b590489..06a6c8a 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -785,10 +785,8 @@ INLINE double MIN_EV_HARM2 (const Mat<N,N,double> & A, const Mat<N,N,double> & B
   FlatMatrix<double> evecs(N, N, lh);
   FlatVector<double> evals(N, lh);
   TimedLapackEigenValuesSymmetric(L, evals, evecs);
-  double tol = 0;
-  for (auto v : evals)
-    { tol += fabs(v); }
-  tol = max2(1e-12 * tol, 1e-15);
+  // relative to A and B, the eigenvalues can be all rounding errors
+  double tol = max2(1e-12 * min2(calc_trace(A), calc_trace(B)), 1e-15);
   int M = 0;
   for (auto k : Range(N))
     if (evals(k) > tol)
-- 
2.43.0


From e2f90b9840bcdc7c4d17a098ea4ad12b3838ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 35/47] fix: trivial coarse level: the finest matrix was
 regularized as if it were a coarse matrix

---
 src/base/precond/amg_pc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index 9f1aef6..87705a4 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -917,7 +917,8 @@ CoarseLevelInv(BaseAMGFactory::AMGLevel const &coarseLevel)
 
   shared_ptr<BitArray> usedFree = coarseLevel.cap->free_nodes;
 
-  if (O.regularize_cmats)
+  // not if this is the finest level matrix (trivial coarse level)
+  if (O.regularize_cmats && ( cspm != GetLocalMat(finest_mat) ) )
     { RegularizeMatrix(cspm, uDofs.GetParallelDofs()); }
 
   DispatchSquareMatrix(*cspm, [&](auto const &cA, auto CBS)
-- 
2.43.0


From a528cc3c831e730de695a155d46a2b3aa0b069df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 36/47] fix: 2d elasticity: regularization of coarse matrices
 judged local values of distributed blocks and left singular translations
 alone

---
 src/elasticity/elasticity_pc_impl.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index e35c700..1442b09 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -711,22 +711,25 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
 template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared_ptr<BaseSparseMatrix> mat, shared_ptr<ParallelDofs> & pardofs) const
 {
   auto& A = static_cast<ElasticityAMGFactory<2>::TSPM_TM&>(*mat);
+  typedef ElasticityAMGFactory<2>::TM TM;
   if ( (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0) ) {
-    Array<int> is_zero(A.Height());
-    for(auto k : Range(A.Height()))
-{ is_zero[k] = (fabs(A(k,k)(2,2)) < 1e-10 ) ?  1 : 0; }
-    AllReduceDofData(is_zero, NG_MPI_SUM, pardofs);
+    Array<TM> diags(A.Height());
     for(auto k : Range(A.Height()))
-if ( (pardofs->IsMasterDof(k)) && (is_zero[k] != 0) )
-  { A(k,k)(2,2) = 1; }
-  }
-  else {
+{ diags[k] = A(k,k); }
+    MyAllReduceDofData(*pardofs, diags, [](auto & a, const auto & b) LAMBDA_INLINE { a+= b; });
     for(auto k : Range(A.Height())) {
-auto & diag_etr = A(k,k);
-if (fabs(diag_etr(2,2)) < 1e-8)
-  { diag_etr(2,2) = 1; }
+if (pardofs->IsMasterDof(k)) {
+  A(k,k) = diags[k];
+  RegTM<0,3,3>(A(k,k));
+}
+else
+  { A(k,k) = 0; }
     }
   }
+  else {
+    for(auto k : Range(A.Height()))
+{ RegTM<0,3,3>(A(k,k)); }
+  }
 } // ElasticityAMGFactory<DIM>::RegularizeMatrix
 #endif // FILE_AMG_ELAST_2D_CPP
 
-- 
2.43.0


From 2569433b722a1c5e6055cdfb0b22c5f8b1d4b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:23 +0000
Subject: [PATCH 37/47] fix: elasticity: trivial energy in strict algebraic
 mode read vertex positions from a mesh that is not there

---
 src/elasticity/elasticity_pc_impl.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index 1442b09..bc26e3d 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -513,12 +513,24 @@ VertexAMGPC<FCC> :: BuildAlgMesh_TRIV (shared_ptr<BlockTM> top_mesh) const
   auto a = new AttachedEVD<FCC::DIM>(Array<ElastVData<FCC::DIM>>(top_mesh->GetNN<NT_VERTEX>()), CUMULATED); // !! otherwise pos is garbage
   auto vdata = a->Data(); // TODO: get penalty dirichlet from row-sums (only taking x/y/z displacement entries)
   FlatArray<int> vsort = node_sort[NT_VERTEX];
-  Vec<FCC::DIM> t; const auto & MA(*ma);
-  for (auto k : Range(O.v_nodes)) {
-    auto vnum = vsort[k];
-    vdata[vnum].wt = 0;
-    vdata[vnum].rot_scaling = 1.0;
-    GetNodePos(O.v_nodes[k], MA, vdata[vnum].pos, t);
+  if (O.vertexSpecification == VertexAMGPCOptions::VERT_SPEC::FROM_MESH_NODES) {
+    Vec<FCC::DIM> t; const auto & MA(*ma);
+    for (auto k : Range(O.v_nodes)) {
+      auto vnum = vsort[k];
+      vdata[vnum].wt = 0;
+      vdata[vnum].rot_scaling = 1.0;
+      GetNodePos(O.v_nodes[k], MA, vdata[vnum].pos, t);
+    }
+  }
+  else {
+    // no mesh in strict alg mode (v2d_array already includes vsort)
+    if (use_v2d_tab)
+      { throw Exception("Strict alg mode only for block-mat!"); }
+    for (auto vnum : Range(vdata)) {
+      vdata[vnum].wt = 0;
+      vdata[vnum].rot_scaling = 1.0;
+      vdata[vnum].pos = O.algVPositions[v2d_array[vnum]];
+    }
   }
   auto b = new AttachedEED<FCC::DIM>(Array<ElasticityEdgeData<FCC::DIM>>(top_mesh->GetNN<NT_EDGE>()), CUMULATED);
   for (auto & x : b->Data()) { SetIdentity(x); }
-- 
2.43.0


From eb3fa2a6405e212ce5c2b7caa7ca1231b89ab4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:18 +0000
Subject: [PATCH 38/47] fix: block Gauss-Seidel on the finest level left out
 all DOFs that belong to no vertex, the preconditioner was singular for high
 order spaces

---
 src/base/precond/amg_pc_vertex_impl.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 791c59e..4c427dc 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -1197,6 +1197,26 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
     v2block[k] = needs_block ? n_blocks++ : vmap[k];
   }
 
+  // on the finest level, free DOFs that belong to no vertex (e.g. high order DOFs) are smoothed one by one
+  Array<int> single_dofs;
+  if (amg_level.level == 0 && (!O.smooth_after_emb)) {
+    BitArray in_vert(strict_alg_mode ? finest_mat->Height() : bfa->GetFESpace()->GetNDof());
+    in_vert.Clear();
+    for (auto k : Range(vmap)) {
+      if (use_v2d_tab) {
+        for (auto dof : v2d_table[k])
+          { in_vert.SetBit(dof); }
+      }
+      else
+        { in_vert.SetBit(v2d_array[k]); }
+    }
+    for (auto dof : Range(in_vert.Size()))
+      if ( (!in_vert.Test(dof)) && ( (finest_freedofs == nullptr) || finest_freedofs->Test(dof) ) )
+        { single_dofs.Append(dof); }
+  }
+  int const n_vert_blocks = n_blocks;
+  n_blocks += single_dofs.Size();
+
   TableCreator<int> cblocks(n_blocks);
   auto it_blocks = [&](auto NV, auto map_v) LAMBDA_INLINE {
     for (auto k : Range(NV)) {
@@ -1234,6 +1254,8 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
         { it_blocks_2(vmap.Size(), map_v); }
       else
         { it_blocks(vmap.Size(), map_v); }
+      for (auto k : Range(single_dofs))
+        { cblocks.Add(n_vert_blocks + k, single_dofs[k]); }
     }
     else {
       // const auto & drop = *amg_level.disc_map->GetDroppedNodes<NT_VERTEX>();
-- 
2.43.0


From fe562a20ca64c4ce39c24b19b0ff27e9833a783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:18 +0000
Subject: [PATCH 39/47] fix: H1 element matrix energy: vertex weights were
 stored at wrong vertices in parallel and out of range for high order DOFs

---
 src/h1/h1_dim1.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/h1/h1_dim1.cpp b/src/h1/h1_dim1.cpp
index 9a013ca..1e80e32 100644
--- a/src/h1/h1_dim1.cpp
+++ b/src/h1/h1_dim1.cpp
@@ -30,18 +30,17 @@ template<> shared_ptr<H1Mesh> ElmatVAMG<H1AMGFactory<1>, double, double> :: Buil
   auto a = new H1VData(Array<IVec<2,double>>(top_mesh->GetNN<NT_VERTEX>()), DISTRIBUTED);
   auto b = new H1EData(Array<double>(top_mesh->GetNN<NT_EDGE>()), DISTRIBUTED);
 
-  FlatArray<int> vsort = node_sort[NT_VERTEX];
-  Array<int> rvsort(vsort.Size());
-  for (auto k : Range(vsort.Size()))
-    rvsort[vsort[k]] = k;
   auto ad = a->Data();
   for (auto key_val : *ht_vertex) {
-    ad[rvsort[get<0>(key_val)]] = IVec<2, double>(get<1>(key_val), 1.0);
+    // only DOFs that are vertices of the mesh (d2v_array, v2d_array include vsort), e.g. no high order DOFs
+    auto vnum = d2v_array[get<0>(key_val)];
+    if (vnum != -1)
+      { ad[vnum] = IVec<2, double>(get<1>(key_val), 1.0); }
   }
   auto bd = b->Data();
   auto edges = top_mesh->GetNodes<NT_EDGE>();
   for (auto & e : edges) {
-    bd[e.id] = (*ht_edge)[IVec<2,int>(rvsort[e.v[0]], rvsort[e.v[1]]).Sort()];
+    bd[e.id] = (*ht_edge)[IVec<2,int>(v2d_array[e.v[0]], v2d_array[e.v[1]]).Sort()];
   }
 
   auto mesh = make_shared<H1Mesh>(std::move(*top_mesh), a, b);
-- 
2.43.0


From 2f8e1cf3c408d940611f14d13691f0a71c33f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:18 +0000
Subject: [PATCH 40/47] fix: elasticity P2 embedding mixed sorted and unsorted
 vertex numbers in parallel

---
 src/elasticity/elasticity_pc_impl.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index bc26e3d..37c8230 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -581,6 +581,13 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
        */
       auto &edgePointParents = this->edgePointParents;
 
+      // v2d_array and vData include the vertex-sorting; the columns of E_D (which is multiplied with the
+      // permutation afterwards) and edgePointParents do not
+      auto &vsort = this->node_sort[NT_VERTEX];
+      Array<int> rvsort(vsort.Size());
+      for (auto k : Range(vsort))
+        { rvsort[vsort[k]] = k; }
+
       Array<int> perow(height);
       perow = 0;
 
@@ -602,7 +609,7 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
       {
         auto const dNum = v2d_array[vNum];
 
-        E_D->GetRowIndices(dNum)[0] = vNum;
+        E_D->GetRowIndices(dNum)[0] = rvsort[vNum];
 
         auto & v = E_D->GetRowValues(dNum)[0];
         v = 0;
@@ -630,7 +637,7 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
         auto ris = E_D->GetRowIndices(dNum);
         auto rvs = E_D->GetRowValues(dNum);
 
-        auto [Qij, Qji] = FCC::ENERGY::GetQijQji(vData[v0], vData[v1]);
+        auto [Qij, Qji] = FCC::ENERGY::GetQijQji(vData[vsort[v0]], vData[vsort[v1]]);
 
         constexpr int BS = FCC::ENERGY::DPV;
         Mat<BS, BS, double> M;
@@ -640,7 +647,7 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
         
         scal = 0.5;
         // for testing (with this, can invert post-emb mat)
-        if ( finest_freedofs && !finest_freedofs->Test(v2d_array[v0]) )
+        if ( finest_freedofs && !finest_freedofs->Test(v2d_array[vsort[v0]]) )
         {
           scal = 0;
         }
@@ -653,7 +660,7 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
 
         scal = 0.5;
         // for testing (with this, can invert post-emb mat)
-        if ( finest_freedofs && !finest_freedofs->Test(v2d_array[v1]) )
+        if ( finest_freedofs && !finest_freedofs->Test(v2d_array[vsort[v1]]) )
         {
           scal = 0;
         }
-- 
2.43.0


From 3f983e2c03d1249f4d6f2751a3151e404bbd8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:43 +0000
Subject: [PATCH 41/47] fix: AMG as a linear solver: convergence check was
 uninitialised and differed between ranks, number of needed steps one too
 large

---
 src/base/solve/LinearSolver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/base/solve/LinearSolver.cpp b/src/base/solve/LinearSolver.cpp
index cbf0e1c..0dc4999 100644
--- a/src/base/solve/LinearSolver.cpp
+++ b/src/base/solve/LinearSolver.cpp
@@ -10,9 +10,16 @@ LinearSolver :: LinearSolver (shared_ptr<BaseMatrix> _A, int _max_steps, double
   : BaseMatrix(_A->GetParallelDofs())
   , A(_A)
   , max_steps(_max_steps)
+  , check_error(true)
   , rtol(_rtol)
   , print(_print)
+  , save_errs(false)
   , prefix(_prefix)
+  , init_err(-1.0)
+  , curr_err(-1.0)
+  , curr_iter(-1)
+  , converged(false)
+  , needed_steps(-1)
 {
   ;
 } // LinearSolver(..)
@@ -96,11 +103,12 @@ void LinearSolver :: Solve (BaseVector &x, const BaseVector &b, BaseVector &res,
     if (master && print)
       { do_output(); }
 
-    if (check_error)
+    if (check_err)
       { converged = ( curr_err < rtol * init_err ); }
   }
 
-  needed_steps = converged ? (curr_iter + 1) : -1;
+  // curr_iter is already incremented for the last iteration
+  needed_steps = converged ? curr_iter : -1;
 
 } // LinearSolver::Solve
 
-- 
2.43.0


From 85f0d57a187055c20e878f7687e0d015a932a2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:43 +0000
Subject: [PATCH 42/47] fix: AMG smoother with a single finest level step ran
 past the coarsest level and used vectors a rank that dropped out does not
 have

---
 src/base/solve/amg_matrix.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index dd6a353..d21672b 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -706,7 +706,8 @@ Smooth (BaseVector  &x, const BaseVector &b,
 
     auto const &map = *amg_mat->GetMap();
 
-    bool const haveNextLevel = map.GetNLevels() > start_level;
+    // ranks that drop out have no vectors on the next level
+    bool const haveNextLevel = amg_mat->x_level[start_level + 1] != nullptr;
 
     if (haveNextLevel)
     {
@@ -717,10 +718,15 @@ Smooth (BaseVector  &x, const BaseVector &b,
       map.TransferAtoB(start_level, start_level + 1, &res, bC.get());
       *xC = 0.0;
 
-      if (map.GetNLevels() > start_level)
+      if (start_level + 2 < map.GetNLevels())
       {
         amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
       }
+      else if (amg_mat->crs_inv != nullptr) // the next level is the coarsest one
+      {
+        amg_mat->crs_inv->Mult(*bC, *xC);
+        xC->Cumulate();
+      }
 
       map.AddC2F(start_level, 1.0, &x, xC.get());
     }
@@ -750,7 +756,8 @@ SmoothBack (BaseVector  &x, const BaseVector &b,
   {
     auto const &map = *amg_mat->GetMap();
 
-    bool const haveNextLevel = map.GetNLevels() > start_level;
+    // ranks that drop out have no vectors on the next level
+    bool const haveNextLevel = amg_mat->x_level[start_level + 1] != nullptr;
 
     amg_mat->GetSmoother(start_level)->SmoothBack(x, b, res, res_updated, true, x_zero);
 
@@ -763,10 +770,15 @@ SmoothBack (BaseVector  &x, const BaseVector &b,
       map.TransferAtoB(start_level, start_level + 1, &res, bC.get());
       *xC = 0.0;
 
-      if (map.GetNLevels() > start_level)
+      if (start_level + 2 < map.GetNLevels())
       {
         amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
       }
+      else if (amg_mat->crs_inv != nullptr) // the next level is the coarsest one
+      {
+        amg_mat->crs_inv->Mult(*bC, *xC);
+        xC->Cumulate();
+      }
 
       map.AddC2F(start_level, 1.0, &x, xC.get());
     }
-- 
2.43.0


From 018ec8c538eab6b4839a292f920b1a9862be644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:43 +0000
Subject: [PATCH 43/47] fix: number of DOFs on a rank was denied where the
 level's communicator is smaller, basis functions accepted invalid requests on
 all ranks but 0

---
 src/base/solve/amg_matrix.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index d21672b..d7c1156 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -453,16 +453,16 @@ namespace amg
 
     { // Check if input is OK
       int input_notok = 0;
-      if ( (arank < 0) || (arank > gcomm.Size()) )
+      if ( (arank < 0) || (arank >= gcomm.Size()) )
       	{ input_notok = 1; }
-      if ( have_lev && (comp > lev_bs) )
+      if ( have_lev && ( (comp < 0) || (comp >= lev_bs) ) )
 	      { input_notok = 2; }
       if ( (gcomm.Rank() == arank) && (!have_lev) ) // e.g contracted out
 	      { input_notok = 3; }
       if (have_lev) {
-        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof > lev_uDofs.GetND()) )
+        if ( (gcomm.Rank() == arank) && ((gcomm.Rank() > 0) || (gcomm.Size() == 1)) && (dof >= lev_uDofs.GetND()) )
           { input_notok = 4; }
-        if ( (arank == 0) && (dof > lev_uDofs.GetNDGlob()) )
+        if ( (arank == 0) && (dof >= lev_uDofs.GetNDGlob()) )
           { input_notok = 5; }
       }
       input_notok = gcomm.AllReduce(input_notok, NG_MPI_MAX);
@@ -477,8 +477,8 @@ namespace amg
           case(5) : { cerr << "global DOFs on level " << level << " < " << dof << endl; break; }
           default : { break; }
           }
-          return;
         }
+        return; // on every rank
       }
     }
 
@@ -506,7 +506,8 @@ namespace amg
     }
 
     /** prolongate down to level 0 **/
-    map.TransferAtoB (min(level, nlev_loc), onLevel, x_level[level].get(), &vec);
+    // ranks that have dropped out before have no vector
+    map.TransferAtoB (min(level, nlev_loc), onLevel, (level < nlev_loc) ? x_level[level].get() : nullptr, &vec);
   } // AMGMatrix :: GetBF
 
 
@@ -523,14 +524,16 @@ namespace amg
 
     int input_notok = 0;
     { // Check input
-      if ( have_lev && (arank >= lev_uDofs.GetCommunicator().Size()) ) {
-      	input_notok = 1;
+      // arank is a rank in the GLOBAL communicator, the ones left on a level are numbered differently there
+      if ( (arank < 0) || (arank >= gcomm.Size()) || ( (gcomm.Rank() == arank) && (!have_lev) ) )
+      	{ input_notok = 1; }
+      input_notok = gcomm.AllReduce(input_notok, NG_MPI_MAX);
+      if ( input_notok )
+      {
         if ( gcomm.Rank() == 0 )
           { cerr << " no rank " << arank << " on level " << level << endl; }
+      	return make_tuple(0, 1);
       }
-      input_notok = gcomm.AllReduce(input_notok, NG_MPI_MAX);
-      if ( input_notok )
-      	{ return make_tuple(0, 1); }
     }
 
     IVec<2, size_t> nd_bs(0);
-- 
2.43.0


From f26924ed1b49166b2d47aa29e935b7107d2be0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 44/47] fix: SPW agglomeration read the uninitialised
 off-process trace of vertices another process is master of

---
 src/base/coarsening/agglomerator_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/agglomerator_impl.hpp b/src/base/coarsening/agglomerator_impl.hpp
index 52a8d65..96f0528 100644
--- a/src/base/coarsening/agglomerator_impl.hpp
+++ b/src/base/coarsening/agglomerator_impl.hpp
@@ -174,7 +174,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = calc_trace(baseDiags[vi]);
-    }, true);
+    }, false); // everyone
 
     // reduce diagonals
     FM.template AllreduceNodalData<NT_VERTEX>(baseDiags, [&](auto tab_in) LAMBDA_INLINE { return sum_table(tab_in); });
@@ -183,7 +183,7 @@ InitializeAggData(AgglomerationData<TMESH, ENERGY, TMU, TWEIGHT> &aggData)
     FM.template Apply<NT_VERTEX>([&](auto vi)
     {
       offProcTrace[vi] = ( calc_trace(baseDiags[vi]) - offProcTrace[vi] ) / BS;
-    }, true);
+    }, false); // everyone
   }
 
   // L2 contribution (add AFTER reduction above)
-- 
2.43.0


From a41dfac2f74a31a7899acbda34c5e1fd7db29cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 45/47] fix: copy constructor of SpecOpt did not copy the
 default

---
 src/base/utils/SpecOpt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 5fe44ed..2890ac4 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -23,7 +23,7 @@ public:
   SpecOpt (OC _default_opt) : default_opt(_default_opt), spec_opt(0) { ; }
   SpecOpt (OC _default_opt, Array<OC> & _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
   SpecOpt (OC _default_opt, Array<OC> _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
-  SpecOpt (const SpecOpt<OC> & other) : default_opt(default_opt), spec_opt(other.spec_opt) { ; }
+  SpecOpt (const SpecOpt<OC> & other) : default_opt(other.default_opt), spec_opt(other.spec_opt) { ; }
   SpecOpt (SpecOpt<OC> && other) : default_opt(other.default_opt), spec_opt(move(other.spec_opt)) { ; }
   SpecOpt (const Flags & flags, OC defopt, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
     : SpecOpt(defopt)
-- 
2.43.0


From fb533f01cd9cb9083c4f8e758111bd7287adaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:19 +0000
Subject: [PATCH 46/47] fix: broadcast of an empty table wrote in front of an
 empty array

---
 src/base/distributed/mpiwrap_extension.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index 0d47e95..80ab764 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -115,7 +115,8 @@ public:
     NgMPI_Comm::Bcast(ss, root);
     if (Rank() != root) {
 Array<int> perow(ss[0]);
-perow = 0; perow.Last() = ss[1];
+perow = 0;
+if (ss[0] > 0) { perow.Last() = ss[1]; } // no rows, nothing to set
 tab = Table<T>(perow);
     }
     if (ss[1]>0) {
-- 
2.43.0


From 1ddfe83d206131f2ea024ef7853b3bf08c81dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:19 +0000
Subject: [PATCH 47/47] fix: gather without communicator overwrote the value
 instead of storing it

---
 src/base/distributed/mpiwrap_extension.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index 80ab764..65bb115 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -222,7 +222,7 @@ public:
   {
 #ifdef PARALLEL
     if (!valid_comm) {
-      val = mem[0];
+      mem[0] = val;
     }
     else{
       if ((Rank() == root) && (mem.Size() < Size()) )
-- 
2.43.0

