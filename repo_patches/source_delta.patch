From acf6211b6b93fae39a88e827ea1cce6f8460ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 01/52] fix: recompute the padding calls in getCoords after the
 block size changes

The second loop reads blocks of a different size from the first one, but
padded it with the number of redundant collective calls of the first.
---
 util/4dio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/4dio.cc b/util/4dio.cc
index 75e4610..70075dc 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -119,6 +119,10 @@ std::unique_ptr<Coords> getCoords(
     max = memlim
           / (crule->paramMem() + SEGY_utils::getMDSz() + 2LU * sizeof(size_t));
 
+    // The block size has changed, so has the number of redundant calls.
+    extra = biggest / max + (biggest % max > 0 ? 1 : 0)
+            - (lnt / max + (lnt % max > 0 ? 1 : 0));
+
     {
         Param prm2(crule, std::min(lnt, max));
         for (size_t i = 0; i < lnt; i += max) {
-- 
2.43.0


From 3eff1dcb062ba25db15dcb610b089cb301826e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 02/52] fix: refuse a sample interval that does not fit the
 SEG-Y header field

The interval is stored as a 16-bit integer; a larger one wrapped around and
was read back as a negative interval. The number of samples was already
checked in the same way.
---
 src/WriteSEGY.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4852eb7..2af1e08 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -180,6 +180,17 @@ void WriteSEGY::writeInc(const exseis::utils::Floating_point inc_)
         return;
     }
 
+    if (
+      std::lround(inc_ / incFactor)
+      > long(std::numeric_limits<int16_t>::max())) {
+        piol->log->record(
+          name, Logger::Layer::File, Logger::Status::Error,
+          "The SEG-Y Interval " + std::to_string(inc_)
+            + " is too large for SEG-Y",
+          PIOL_VERBOSITY_NONE);
+        return;
+    }
+
     if (inc != inc_) {
         inc           = inc_;
         state.writeHO = true;
-- 
2.43.0


From 2a951a8f950f092ad183e8edc5bb864f268696c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 03/52] fix: writeNt after writing traces resizes the file on
 all ranks

The trace count of a rank is local until it has been combined, so comparing
the new count with it made only some ranks take part in the collective resize
when the file was closed.
---
 src/WriteSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 2af1e08..7a6a791 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -163,7 +163,9 @@ void WriteSEGY::writeNs(const size_t ns_)
 
 void WriteSEGY::writeNt(const size_t nt_)
 {
-    if (nt != nt_) {
+    // While the count is stale it can differ between ranks, but all of them have
+    // to agree on whether the file is resized.
+    if (nt != nt_ || state.stalent) {
         nt           = nt_;
         state.resize = true;
     }
-- 
2.43.0


From 89453ac7f050590a185307ccdf307462535d1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 04/52] fix: writing no traces does not extend the file

A rank taking part in a contiguous write without traces of its own extended
the file up to its offset, unlike in the list form of the call.
---
 src/WriteSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 7a6a791..5522a5d 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -304,7 +304,9 @@ void WriteSEGY::writeTrace(
 
     writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
     state.stalent = true;
-    nt            = std::max(offset + sz, nt);
+    if (sz != 0) {
+        nt = std::max(offset + sz, nt);
+    }
 }
 
 void WriteSEGY::writeTraceNonContiguous(
-- 
2.43.0


From 36ba9dac737ef888d496e26a28eca506716511ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 05/52] fix: decode IBM samples from the bytes of the sample

The four bytes were taken from a double holding the (not yet converted)
sample, so every trace read from an IBM format file was wrong.
---
 src/ReadSEGY.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..571b13e 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,7 +185,7 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
+                const exseis::utils::Trace_value be_trc_i = trc[i];
 
                 const unsigned char* be_trc_i_bytes =
                   reinterpret_cast<const unsigned char*>(&be_trc_i);
-- 
2.43.0


From 15027f5544e67d91d69a390241b741c4a17eff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 06/52] fix: tiny IBM numbers convert to zero

The shift that denormalises the significand can exceed the width of the type,
which is undefined and gave garbage instead of zero for numbers below 2^-149.
---
 src/utils/encoding/number_encoding.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..2bb8e55 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -106,6 +106,11 @@ Float_components from_IBM(
 /// @returns The result of \c value >> \c shift, with round-half-even applied.
 static uint32_t rshift_with_rounding(uint32_t value, uint32_t shift)
 {
+    // Shifting by the width of the type or more is undefined. The significands
+    // shifted here have at most 24 bits, so nothing is left of them.
+    if (shift >= 32) {
+        return 0;
+    }
 
     // Get the part of the `value` that will be truncated. This will be the
     // last `shift` bits
-- 
2.43.0


From ccb551335d5c511be14c6d0c3fcce350d92c0767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 07/52] fix: IBM zero converts to zero

---
 src/utils/encoding/number_encoding.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 2bb8e55..dd2df71 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -195,6 +195,11 @@ float to_float(Float_components components)
     // 1 in the significand.
     exp = exp + 127 - 1;
 
+    // Zero has no leading 1, so it is encoded with an exponent of zero.
+    if (components.significand == 0) {
+        exp = 0;
+    }
+
 
     // Denormalized numbers
     //
-- 
2.43.0


From c4e1729c8d28b1ccea0bc65026ec29a96ba597a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 08/52] fix: CommunicatorMPI::offset works on its own
 communicator

---
 src/CommunicatorMPI.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..0be63b6 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -226,8 +226,7 @@ size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
     MPI_Exscan(
-      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From de6d222118e8d8710dc6b70a79cccb8dc0cca1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 09/52] fix: sort exchanges on the communicator of the library
 object

---
 src/sort.cc | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c9a3a02..13cdb9b 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -485,7 +485,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     // TODO: Move to the communication layer?
     if (rank) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -499,7 +499,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Isend(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rsnd[0]);
+          piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -532,7 +532,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 
     if (rank) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -546,7 +546,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Irecv(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rrcv[0]);
+          piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -627,7 +627,7 @@ void sort(
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -730,19 +730,19 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -755,19 +755,19 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -818,38 +818,38 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
     }
 
     Wait(piol, rrcv, rsnd);
@@ -946,7 +946,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
-- 
2.43.0


From d45896032efe40f23f9ced188d1412437780a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:43 +0000
Subject: [PATCH 10/52] fix: files are opened on the communicator of the
 library object

---
 include/ExSeisDat/PIOL/DataMPIIO.hh | 3 ++-
 src/DataMPIIO.cc                    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ExSeisDat/PIOL/DataMPIIO.hh b/include/ExSeisDat/PIOL/DataMPIIO.hh
index 0c3710b..fdaeb0e 100644
--- a/include/ExSeisDat/PIOL/DataMPIIO.hh
+++ b/include/ExSeisDat/PIOL/DataMPIIO.hh
@@ -58,7 +58,8 @@ class DataMPIIO : public DataInterface {
         /// operation
         size_t maxSize;
 
-        /// The MPI communicator to use for file access
+        /// The MPI communicator to use for file access. MPI_COMM_NULL selects
+        /// the communicator of the ExSeisPIOL object.
         MPI_Comm fcomm;
 
         /// The constructor to set default options
diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..01fc94f 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -184,7 +184,7 @@ DataMPIIO::Opt::Opt(void)
 #else
     coll = false;
 #endif
-    fcomm = MPI_COMM_WORLD;
+    fcomm = MPI_COMM_NULL;
     info  = MPI_INFO_NULL;
     MPI_Info_create(&info);
     //    MPI_Info_set(info, "access_style", "read_once");
@@ -303,7 +303,8 @@ void DataMPIIO::Init(const DataMPIIO::Opt& opt, FileMode mode)
           "MPI_CHAR extent is bigger than one.", PIOL_VERBOSITY_NONE);
     }
 
-    fcomm = opt.fcomm;
+    fcomm =
+      (opt.fcomm != MPI_COMM_NULL ? opt.fcomm : piol_->comm->getComm());
 
     int flags = getMPIMode(mode);
 
-- 
2.43.0


From b00ea31841e62c6ad3f460283dfe3a9e2e214bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 11/52] fix: list I/O reports transfer errors and restores the
 view after them

---
 src/DataMPIIO.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 01fc94f..af7efbb 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -160,18 +160,15 @@ int iol(
         return err;
     }
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    const int io_err = fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
 
-    // Reset the view.
+    // Reset the view, even if the transfer failed.
     err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    if (err != MPI_SUCCESS) {
-        return err;
+    if (err == MPI_SUCCESS) {
+        err = MPI_Type_free(&type);
     }
 
-    return MPI_Type_free(&type);
+    return (io_err != MPI_SUCCESS ? io_err : err);
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
-- 
2.43.0


From 096ade762b33722a0dc89b0995ace86b4a9b747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 12/52] fix: failing to reset the file view is recorded

---
 src/DataMPIIO.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index af7efbb..f6a32d0 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -408,8 +408,17 @@ void DataMPIIO::readv(
     read(0LU, nb * bsz, d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err == MPI_SUCCESS) {
+        err = MPI_Type_free(&view);
+    }
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
 }
 
 void DataMPIIO::read(
@@ -577,8 +586,17 @@ void DataMPIIO::writev(
     write(0LU, nb * bsz, d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err == MPI_SUCCESS) {
+        err = MPI_Type_free(&view);
+    }
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
 }
 
 void DataMPIIO::write(size_t offset, size_t sz, const unsigned char* d) const
-- 
2.43.0


From 4e0f7022c9f4af06a1c3069813ade64a0a57f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 13/52] fix: offset records the error of its MPI_Exscan

---
 src/CommunicatorMPI.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 0be63b6..cc60185 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -225,8 +225,16 @@ size_t CommunicatorMPI::min(size_t val)
 size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
-    MPI_Exscan(
+    int err       = MPI_Exscan(
       &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
+
+    if (err != MPI_SUCCESS) {
+        log->record(
+          "", Logger::Layer::Comm, Logger::Status::Error,
+          "MPI_Exscan error: "s + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From f9556fa727a28cdf9cedc1b06aebedf2a58106ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 14/52] fix: distributed vector windows hold all their elements

The size given to MPI_Win_allocate is in bytes.
---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..45a4ebd 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,8 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
-- 
2.43.0


From 51922b1e5b0f5e61c08a0904d02675b259b77c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 15/52] fix: the index one past the end of a distributed vector
 is out of range

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 45a4ebd..228ca01 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -102,7 +102,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -136,7 +136,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
-- 
2.43.0


From a8d0b357c78c8f517338eac548ef3775413a7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 16/52] fix: rank 0 may access a distributed vector

---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 228ca01..772527b 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -116,7 +116,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
       block_decomposition_location(global_size, num_ranks, i);
 
     // Set the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         data[location.local_index] = val;
     }
@@ -149,7 +149,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
     // Get the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
         return data[location.local_index];
     }
-- 
2.43.0


From 93fa1389e6d834697290a13068abfb1124783ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 17/52] fix: distributed vector locks are checked for conflicts

Two ranks may set elements of the same rank at once, so MPI_MODE_NOCHECK,
which promises that there is no conflicting lock, does not hold.
---
 include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index 772527b..5000667 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -122,7 +122,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
     }
     else {
         // Lock the window, set the remote data, and unlock.
-        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, MPI_MODE_NOCHECK, win);
+        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, 0, win);
 
         const size_t T_size = sizeof(T);
         MPI_Put(
@@ -156,7 +156,7 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     else {
         T val;
 
-        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, MPI_MODE_NOCHECK, win);
+        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, 0, win);
 
         const size_t T_size = sizeof(T);
         MPI_Get(
-- 
2.43.0


From dc71c62354e2849e1608d52bbfce00cab6dce95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 18/52] fix: merging gathers does not look past the last
 process

---
 src/gather.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gather.cc b/src/gather.cc
index 291a75c..59811a9 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -66,7 +66,10 @@ static utils::Distributed_vector<Gather_info> getGathers(
     }
 
     if (start < lline.size()) {
-        if (ilf[rank + 1LU] == ilb[rank] && xlf[rank + 1LU] == xlb[rank]) {
+        if (
+          rank + 1LU < numRank && ilf[rank + 1LU] == ilb[rank]
+          && xlf[rank + 1LU] == xlb[rank]) {
+
             for (size_t i = rank + 1LU; i < numRank; i++) {
                 if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {
                     lline.back().num_traces += trcnum[i];
-- 
2.43.0


From 5d7a85ec9045c26d0e98911fa9e73a46cacb8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 19/52] fix: gathers are complete before they are returned

---
 src/gather.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gather.cc b/src/gather.cc
index 59811a9..75c5f9e 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -91,6 +91,9 @@ static utils::Distributed_vector<Gather_info> getGathers(
         line.set(i + offset, lline[i + start]);
     }
 
+    // The elements set by one process are read by others.
+    piol->comm->barrier();
+
     return std::move(line);
 }
 
-- 
2.43.0


From f29ece5bce26e95924506419d572a442d316e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 20/52] fix: processes without traces contribute no gather

---
 src/gather.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/gather.cc b/src/gather.cc
index 75c5f9e..d4ca1da 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -31,11 +31,15 @@ static utils::Distributed_vector<Gather_info> getGathers(
     size_t numRank = piol->comm->getNumRank();
     std::vector<Gather_info> lline;
 
-    exseis::utils::Integer ill =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
-    exseis::utils::Integer xll =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
-    lline.push_back({1LU, ill, xll});
+    // A process without traces takes part with an empty gather.
+    const bool empty           = (prm->size() == 0);
+    exseis::utils::Integer ill = 0;
+    exseis::utils::Integer xll = 0;
+    if (!empty) {
+        ill = param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
+        xll = param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
+    }
+    lline.push_back({(empty ? 0LU : 1LU), ill, xll});
 
     for (size_t i = 1; i < prm->size(); i++) {
         exseis::utils::Integer il =
@@ -81,7 +85,7 @@ static utils::Distributed_vector<Gather_info> getGathers(
         }
     }
 
-    size_t sz     = lline.size() - start;
+    size_t sz     = (empty ? 0LU : lline.size() - start);
     size_t offset = piol->comm->offset(sz);
 
     utils::MPI_Distributed_vector<Gather_info> line(
-- 
2.43.0


From e49dc116483fa89e94a9842456eefad72bcf05df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:47 +0000
Subject: [PATCH 21/52] fix: coordinate windows hold all their coordinates

The size given to MPI_Win_create is in bytes.
---
 util/4dcore.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 290a2b8..8db0f15 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -103,23 +103,30 @@ std::vector<MPI_Win> createCoordsWin(const Coords* crd, const bool ixline)
 
     // Look at MPI_Info
     MPIErr(MPI_Win_create(
-      crd->xSrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
+      crd->xSrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[0]));
     MPIErr(MPI_Win_create(
-      crd->ySrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
+      crd->ySrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[1]));
     MPIErr(MPI_Win_create(
-      crd->xRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
+      crd->xRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[2]));
     MPIErr(MPI_Win_create(
-      crd->yRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
+      crd->yRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[3]));
     MPIErr(MPI_Win_create(
-      crd->tn, crd->sz, sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
+      crd->tn, crd->sz * sizeof(size_t), sizeof(size_t), info,
+      MPI_COMM_WORLD, &win[4]));
 
     if (ixline) {
         win.resize(7);
         MPIErr(MPI_Win_create(
-          crd->il, crd->sz, sizeof(exseis::utils::Integer), info,
+          crd->il, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info,
           MPI_COMM_WORLD, &win[5]));
         MPIErr(MPI_Win_create(
-          crd->xl, crd->sz, sizeof(exseis::utils::Integer), info,
+          crd->xl, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info,
           MPI_COMM_WORLD, &win[6]));
     }
 
-- 
2.43.0


From ba5bf012afcf90ac2a15a7e35aaae60f5b0cc8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:59 +0000
Subject: [PATCH 22/52] fix: the restart file is written in builds without
 assertions

---
 util/fourdbin.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/util/fourdbin.cc b/util/fourdbin.cc
index 939c3e6..c3d0fa1 100644
--- a/util/fourdbin.cc
+++ b/util/fourdbin.cc
@@ -146,10 +146,13 @@ int main(int argc, char** argv)
         std::string name = "tmp/restart" + std::to_string(piol->getRank());
         FILE* fOut       = fopen(name.c_str(), "w+");
         size_t sz        = list1.size();
-        assert(fwrite(&sz, sizeof(size_t), 1U, fOut) == 1U);
-        assert(fwrite(list1.data(), sizeof(size_t), sz, fOut) == sz);
-        assert(fwrite(list2.data(), sizeof(size_t), sz, fOut) == sz);
-        assert(fwrite(lminrs.data(), sizeof(fourd_t), sz, fOut) == sz);
+        bool written =
+          (fwrite(&sz, sizeof(size_t), 1U, fOut) == 1U)
+          && (fwrite(list1.data(), sizeof(size_t), sz, fOut) == sz)
+          && (fwrite(list2.data(), sizeof(size_t), sz, fOut) == sz)
+          && (fwrite(lminrs.data(), sizeof(fourd_t), sz, fOut) == sz);
+        assert(written);
+        (void)written;
         fclose(fOut);
     }
 
-- 
2.43.0


From aa7154ae936da726cf4636aa3ddad84e2d67db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:32 +0000
Subject: [PATCH 23/52] fix: do not read past the end when a read starts beyond
 the last trace

---
 src/ReadSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 571b13e..9429977 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -216,7 +216,9 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    size_t ntz = ((sz == 0 || offset >= nt) ?
+                    0LU :
+                    (offset + sz > nt ? nt - offset : sz));
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From ab8145fcb6c4c9e9a2ce9e3ceff2adb4ad113576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:32 +0000
Subject: [PATCH 24/52] fix: reading an unordered list of traces without
 headers, or an empty one

---
 src/ReadSEGY.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 9429977..8667f0c 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -252,14 +252,15 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    Param sprm(
+      (prm != PIOL_PARAM_NULL ? prm->r : std::make_shared<Rule>(true, true)),
+      (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
-- 
2.43.0


From 6b68ded5c0d43c46d74b02d07dab49bacf6da445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 25/52] fix: a set does not write its output again,
 unprocessed, when it is destroyed

---
 src/Flow/Set.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3681fb3..7d71a85 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -511,6 +511,9 @@ std::vector<std::string> Set::output(std::string oname)
     std::vector<std::string> out = calcFunc(func.begin(), func.end());
     func.clear();
 
+    // The output has been written, so there is none left for the destructor.
+    outfix.clear();
+
     return out;
 }
 
-- 
2.43.0


From f835fd2c1bfce86f6822954f0b397bc302817825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 26/52] fix: output returns the file names also when the first
 operation is not on single traces

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 7d71a85..2020eaa 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -493,7 +493,7 @@ std::vector<std::string> Set::calcFunc(
             ++fCurr;
         }
 
-        calcFunc(fCurr, fEnd);
+        return calcFunc(fCurr, fEnd);
     }
 
     return std::vector<std::string>{};
-- 
2.43.0


From 571d34b8838362795ba24beeb75c62d69d851248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 27/52] fix: operations on single traces after one on gathers
 are applied once, and no gather operation is skipped

---
 src/Flow/Set.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 2020eaa..8a63ea5 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -155,8 +155,7 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
                   ->func(bIn.get(), bOut.get());
                 bIn = std::move(bOut);
             }
-            ++fCurr;
-            // fallthrough
+            break;
         case FuncOpt::SingleTrace:
             if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
                 type = FuncOpt::SingleTrace;
-- 
2.43.0


From 69e5963dd981d29eb41a68fefb06b47cd253e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 28/52] fix: traces of several files are numbered in the order
 of the list handed to the sort

---
 src/Flow/Cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 7ea3d87..2897789 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -44,7 +44,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
               f->ilst.size(), f->ilst.data(), prm.get(), loff);
             for (size_t i = 0LU; i < f->ilst.size(); i++) {
                 param_utils::setPrm(
-                  loff + i, PIOL_META_gtn, off + loff + f->ilst[i], prm.get());
+                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());
                 param_utils::setPrm(
                   loff + i, PIOL_META_ltn, f->ilst[i] * desc.size() + c,
                   prm.get());
-- 
2.43.0


From 885245962fc16270ad847d249cc823c97421880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 29/52] fix: the velocity of samples below the model is that of
 its last sample

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 8a63ea5..44156b8 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -640,7 +640,7 @@ void Set::toAngle(
                            size_t(
                              exseis::utils::Floating_point(z * in->inc)
                              / state->vInc),
-                           state->vNs)];
+                           state->vNs - 1)];
                   exseis::utils::Integer k =
                     llround(
                       vmModel
-- 
2.43.0


From 120c06ef909a9cb3ed903e57c72cb792ba6447cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 30/52] fix: the order of a set that could not be sorted is
 kept

---
 src/Flow/Set.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 44156b8..4f0a845 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -418,9 +418,15 @@ Set::FuncLst::iterator Set::calcFuncS(
     std::vector<size_t> trlist =
       dynamic_cast<Op<InPlaceMod>*>(fCurr->get())->func(block.get());
 
+    // An operation that failed returns no order
     size_t j = 0;
     for (auto& f : fQue) {
-        std::copy(&trlist[j], &trlist[j + f->olst.size()], f->olst.begin());
+        if (j + f->olst.size() > trlist.size()) {
+            break;
+        }
+        std::copy(
+          trlist.begin() + j, trlist.begin() + j + f->olst.size(),
+          f->olst.begin());
         j += f->olst.size();
     }
 
-- 
2.43.0


From ff654e689d7df113ec88f107cdb6ad0add2dd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 31/52] fix: adding files to a set keeps the text set for its
 output

---
 include/ExSeisDat/Flow/Set.hh | 2 +-
 src/Flow/Set.cc               | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 8054b3f..89b09a7 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -45,7 +45,7 @@ class Set {
     std::string outfix;
 
     /// The output text-header message
-    std::string outmsg;
+    std::string outmsg = "ExSeisPIOL: Set layer output\n";
 
     /// A deque of unique pointers to file descriptors
     FileDeque file;
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 4f0a845..50117fc 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -86,7 +86,6 @@ void Set::add(std::unique_ptr<ReadInterface> in)
 
 void Set::add(std::string pattern)
 {
-    outmsg = "ExSeisPIOL: Set layer output\n";
     glob_t globs;
     int err = glob(pattern.c_str(), GLOB_TILDE | GLOB_MARK, NULL, &globs);
     if (err != 0) {
-- 
2.43.0


From 96f1dcc08e4525b63ded8a1837c5210fe458072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:24 +0000
Subject: [PATCH 32/52] fix: the largest coordinate of a set may be negative

---
 src/Flow/Set.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 50117fc..6d5e184 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -526,9 +526,11 @@ void Set::getMinMax(
 {
     // TODO: This needs to be changed to be compatible with ExSeisFlow
     minmax[0].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[1].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     minmax[2].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[3].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     for (size_t i = 0; i < 4; i++) {
         minmax[i].num = std::numeric_limits<size_t>::max();
     }
-- 
2.43.0


From a86b4f99123dda546d42d721308aec836e30d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 33/52] fix: negative offsets are sorted before positive ones

---
 src/sort.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 13cdb9b..f510f65 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -148,7 +148,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_yRcv, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xRcv, prm);
@@ -156,7 +157,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_yRcv, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -208,7 +210,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_ySrc, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xSrc, prm);
@@ -216,7 +219,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_ySrc, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -279,10 +283,12 @@ static bool lessLineOff(const Param* prm, const size_t i, const size_t j)
 
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
             return (
               off1 < off2
               || (off1 == off2
@@ -319,7 +325,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       i, PIOL_META_yRcv, prm);
     auto off1 =
       (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                 param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   i, PIOL_META_Offset, prm));
 
     auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
       j, PIOL_META_xSrc, prm);
@@ -331,7 +338,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       j, PIOL_META_yRcv, prm);
     auto off2 =
       (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                 param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   j, PIOL_META_Offset, prm));
 
     if (off1 < off2) {
         return true;
-- 
2.43.0


From a981969d1681e4275cb2454c9b7e46be7f1cbb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 34/52] fix: processes with two or three traces exchange traces
 in a sort

---
 src/sort.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index f510f65..d927f66 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -429,6 +429,17 @@ bool checkOrder(
 
 /**************************** Core Implementation *****************************/
 
+/*! The number of traces which neighbouring processes exchange in each step of a
+ *  sort. At least one must be exchanged for the processes to be ordered with
+ *  respect to each other.
+ *  @param[in] lnt The smallest number of traces of any process
+ *  @return Return the number of traces to exchange.
+ */
+static size_t exchangeSize(size_t lnt)
+{
+    return (lnt < 4LU ? lnt / 2LU : lnt / 4LU);
+}
+
 /*! Wait on two requests to finish. The largest and smallest rank only wait on
  *  one request.
  *  @param[in] piol The PIOL object.
@@ -663,7 +674,7 @@ void sort(
 std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
 {
     const size_t lnt      = list.size();
-    const size_t regionSz = piol->comm->min(lnt) / 4LU;
+    const size_t regionSz = exchangeSize(piol->comm->min(lnt));
     const size_t edge2 =
       (piol->comm->getRank() != piol->comm->getNumRank() - 1 ? regionSz : 0LU);
     const size_t offset = piol->comm->offset(lnt);
@@ -878,7 +889,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
     size_t lnt      = prm->size();
     size_t numRank  = piol->comm->getNumRank();
     size_t rank     = piol->comm->getRank();
-    size_t regionSz = piol->comm->min(lnt) / 4LU;
+    size_t regionSz = exchangeSize(piol->comm->min(lnt));
     size_t edge1    = (rank != 0 ? regionSz : 0LU);
     size_t edge2    = (rank != numRank - 1 ? regionSz : 0LU);
 
-- 
2.43.0


From eba5e1421b0fd48c079f59326c52aae3d2ce1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 35/52] fix: copied headers move with their trace in a sort

---
 src/sort.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index d927f66..0625c31 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -725,8 +725,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -762,6 +762,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
           piol->comm->getComm(), &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort right header copy MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0,
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -787,6 +791,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
           piol->comm->getComm(), &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort right header copy MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0,
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -811,8 +819,8 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -850,6 +858,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
           piol->comm->getComm(), &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort left header copy MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1,
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -869,6 +881,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
           piol->comm->getComm(), &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort left header copy MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1,
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     Wait(piol, rrcv, rsnd);
-- 
2.43.0


From c8549ffd10f5ec989dcd0d163c80e593b58733f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 36/52] fix: the order between the traces of neighbouring
 processes is checked too

---
 src/sort.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 0625c31..0daa518 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -414,11 +414,16 @@ bool checkOrder(
   SortType type)
 {
     auto comp = getComp(type);
-    Param prm(dec.local_size);
+    // The trace before the local ones is compared with the first of them.
+    const size_t before =
+      (dec.local_size != 0 && dec.global_offset != 0 ? 1LU : 0LU);
+    const size_t lnt = before + dec.local_size;
 
-    src->readParam(dec.global_offset, dec.local_size, &prm);
+    Param prm(lnt);
 
-    for (size_t i = 1; i < dec.local_size; i++) {
+    src->readParam(dec.global_offset - before, lnt, &prm);
+
+    for (size_t i = 1; i < lnt; i++) {
         if (!comp(&prm, i - 1, i)) {
             return false;
         }
-- 
2.43.0


From 5afdb4224362a3d74833bbe84f31e2d0f52283b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 37/52] fix: a gather ends where another one begins on the next
 process

---
 src/gather.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gather.cc b/src/gather.cc
index d4ca1da..e29bd0f 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -60,6 +60,7 @@ static utils::Distributed_vector<Gather_info> getGathers(
     auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
     auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
     auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
+    auto count  = piol->comm->gather<size_t>(lline.size());
 
     size_t start = 0;
     if (
@@ -81,6 +82,11 @@ static utils::Distributed_vector<Gather_info> getGathers(
                 else {
                     break;
                 }
+
+                // The gather ends on this process if it has another.
+                if (count[i] > 1LU) {
+                    break;
+                }
             }
         }
     }
-- 
2.43.0


From 3b46d8236f0bc91b75d857562f0be7a3f0e3407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 38/52] fix: a trace of zeros is tapered

---
 src/utils/signal_processing/taper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..d7cbc7e 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -31,8 +31,11 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
-        assert(truncated_signal[0] != 0);
 
+        // There is nothing to taper in a signal of zeros.
+        if (truncated_signal == signal + signal_size) {
+            return;
+        }
 
         // Find the new sizes
         const auto truncated_signal_size =
-- 
2.43.0


From 6ef9dc5448d6b04da7e87905328455ca02578614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 39/52] fix: cached parameters and traces are found

---
 include/ExSeisDat/Flow/Cache.hh     | 4 +++-
 include/ExSeisDat/Flow/CacheElem.hh | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ExSeisDat/Flow/Cache.hh b/include/ExSeisDat/Flow/Cache.hh
index dc85bb6..02ea2f6 100644
--- a/include/ExSeisDat/Flow/Cache.hh
+++ b/include/ExSeisDat/Flow/Cache.hh
@@ -105,7 +105,9 @@ class Cache {
         auto it = std::find_if(
           cache.begin(), cache.end(),
           [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-        cache.erase(it);
+        if (it != cache.end()) {
+            cache.erase(it);
+        }
     }
 
     /*! Get a subset of parameters from a cache.
diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index 20fa245..8e260df 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -62,7 +62,7 @@ struct CacheElem {
      */
     bool checkPrm(const FileDeque& desc_) const
     {
-        return desc == desc_ && !block && block->prm;
+        return desc == desc_ && block && block->prm;
     }
 
     /*! Check if the given element has cached traces
@@ -71,7 +71,7 @@ struct CacheElem {
      */
     bool checkTrc(const FileDeque& desc_) const
     {
-        return desc == desc_ && !block && !block->trc.empty();
+        return desc == desc_ && block && !block->trc.empty();
     }
 };
 
-- 
2.43.0


From 72d69764bed1e63d000ef3e2de30c491b098fb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 40/52] fix: tapers may be as long as the live part of a signal

---
 src/utils/signal_processing/taper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index d7cbc7e..2634479 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -20,7 +20,7 @@ void taper(
   size_t left_taper_size,
   size_t right_taper_size)
 {
-    assert(signal_size > left_taper_size && signal_size > right_taper_size);
+    assert(signal_size >= left_taper_size && signal_size >= right_taper_size);
 
     // Drop muted trace region at the start, if it's there, and call this
     // function again for the truncated region.
-- 
2.43.0


From 3a50f4a456fb46a44f616df6f6326dcf9b4b7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:47 +0000
Subject: [PATCH 41/52] fix: operations after a single trace operation are
 applied

---
 src/Flow/Set.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 6d5e184..8a2f09b 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -479,17 +479,25 @@ std::vector<std::string> Set::calcFunc(
             }
         }
         else if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
-            std::vector<std::string> sname = startSingle(fCurr, fEnd);
+            auto fTemp = fCurr;
+            while (++fTemp != fEnd
+                   && (*fTemp)->opt.check(FuncOpt::SingleTrace)) {
+            }
 
-            if (!sname.empty()) {
-                return sname;
+            if (fTemp == fEnd) {
+                return startSingle(fCurr, fEnd);
             }
 
-            for (; fCurr != fEnd; ++fCurr) {
-                if (!(*fCurr)->opt.check(FuncOpt::SingleTrace)) {
-                    break;
-                }
+            // The following operations work on the output of these ones.
+            std::string tOutfix = outfix;
+            outfix = "stemp" + std::to_string(std::distance(fTemp, fEnd));
+            std::vector<std::string> names = startSingle(fCurr, fTemp);
+            outfix                         = tOutfix;
+            drop();
+            for (std::string n : names) {
+                add(n);
             }
+            fCurr = fTemp;
         }
         else {
             std::cerr
-- 
2.43.0


From 9cd42340e7ca3d668ce35dd928014301afac871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:47 +0000
Subject: [PATCH 42/52] fix: a new order is kept by a following gather
 operation

---
 src/Flow/Set.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 8a2f09b..7fcfcc0 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -268,7 +268,13 @@ std::vector<std::string> Set::startSingle(
 std::string Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
-    if (file.size() > 1LU) {
+    // The gathers are read from one file with the traces in their order.
+    bool rewrite = file.size() > 1LU;
+    for (auto& f : file) {
+        rewrite = rewrite || f->ilst != f->olst;
+    }
+
+    if (piol->comm->max(size_t(rewrite)) != 0LU) {
         OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::NeedTrcVal,
                      FuncOpt::SingleTrace};
         FuncLst tFunc;
-- 
2.43.0


From d7ada97aad7c35e403c97dfac722f6606531efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:43 +0000
Subject: [PATCH 43/52] fix: cached parameters are used for rules they have all
 entries of

---
 include/ExSeisDat/Flow/CacheElem.hh |  4 ++++
 src/Flow/Cache.cc                   | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index 8e260df..80e5d0a 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -6,6 +6,7 @@
 
 #include "ExSeisDat/Flow/FileDesc.hh"
 #include "ExSeisDat/Flow/TraceBlock.hh"
+#include "ExSeisDat/PIOL/Rule.hh"
 
 #include <deque>
 #include <memory>
@@ -24,6 +25,9 @@ struct CacheElem {
     /// A deque of unique pointers to file descriptors
     FileDeque desc;
 
+    /// The rules the parameters were read for
+    std::shared_ptr<exseis::PIOL::Rule> rule;
+
     /// The cached data
     std::shared_ptr<TraceBlock> block;
 
diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 2897789..cda2043 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -11,6 +11,7 @@
 #include "ExSeisDat/PIOL/param_utils.hh"
 
 // TODO: Remove when all options implemented
+#include <algorithm>
 #include <iostream>
 
 using namespace exseis::PIOL;
@@ -25,7 +26,19 @@ std::shared_ptr<TraceBlock> Cache::getCache(
     auto it = std::find_if(
       cache.begin(), cache.end(),
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-    if (it == cache.end() || !it->block || !it->block->prm) {
+    // The cached parameters may have been read for rules without some of the
+    // entries.
+    auto missing = [rule](const CacheElem& elem) -> bool {
+        return !elem.rule
+               || std::any_of(
+                    rule->translate.begin(), rule->translate.end(),
+                    [&elem](const auto& entry) -> bool {
+                        return elem.rule->translate.count(entry.first) == 0;
+                    });
+    };
+
+    if (
+      it == cache.end() || !it->block || !it->block->prm || missing(*it)) {
         size_t lnt = 0LU;
         size_t nt  = 0LU;
         for (auto& f : desc) {
@@ -64,6 +77,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
             it->block->prm = std::move(prm);
         }
 
+        it->rule       = rule;
         it->block->nt  = nt;
         it->block->ns  = desc[0]->ifc->readNs();
         it->block->inc = desc[0]->ifc->readInc();
-- 
2.43.0


From 71935dd7bb02eaf0d29a31b440dbf53e8c255b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:33 +0000
Subject: [PATCH 44/52] fix: gather operations in a row work on each gather
 once

---
 src/Flow/Set.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 7fcfcc0..04aecfb 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -152,7 +152,10 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
                 auto bOut = std::make_unique<TraceBlock>();
                 dynamic_cast<Op<Mod>*>(fCurr->get())
                   ->func(bIn.get(), bOut.get());
-                bIn = std::move(bOut);
+                bOut->nt   = bIn->nt;
+                bOut->gNum = bIn->gNum;
+                bOut->numG = bIn->numG;
+                bIn        = std::move(bOut);
             }
             break;
         case FuncOpt::SingleTrace:
@@ -302,14 +305,14 @@ std::string Set::startGather(
         size_t numGather = gdec.local_size;
 
         std::vector<size_t> gNums;
+        for (size_t i = 0; i < numGather; i++) {
+            gNums.push_back(i * numRank + rank);
+        }
+
         for (auto fTemp = fCurr;
              fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather); fTemp++) {
             auto* p = dynamic_cast<Op<Mod>*>(fTemp->get());
             assert(p);
-            for (size_t i = 0; i < numGather; i++) {
-                gNums.push_back(i * numRank + rank);
-            }
-
             p->state->makeState(gNums, gather);
         }
 
@@ -642,11 +645,12 @@ void Set::toAngle(
           const size_t iGSz = in->prm->size();
           out->ns           = in->ns;
           out->inc          = state->oInc;  // 1 degree in radians
-          out->trc.resize(state->oGSz * out->ns);
-          out->prm.reset(new Param(in->prm->r, state->oGSz));
           if (in->prm->size() == 0) {
+              out->prm.reset(new Param(in->prm->r, 0LU));
               return;
           }
+          out->trc.resize(state->oGSz * out->ns);
+          out->prm.reset(new Param(in->prm->r, state->oGSz));
 
           // For each angle in the angle gather
           for (size_t j = 0; j < state->oGSz; j++) {
-- 
2.43.0


From 87296768c48c2505b0d61110288c0238f9cccbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:05 +0000
Subject: [PATCH 45/52] fix: each kind of traces is written to a file of its
 own

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 04aecfb..e55b4b6 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -184,7 +184,7 @@ std::vector<std::string> Set::startSingle(
         size_t ns                         = fQue[0]->ifc->readNs();
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
-        if (fQue.size() == 1) {
+        if (fQue.size() == 1 && fmap.size() == 1) {
             name = outfix + ".segy";
         }
         else {
-- 
2.43.0


From d462a7033c9c64bb43581068cdcab28d321898a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:05 +0000
Subject: [PATCH 46/52] fix: gathers of each kind of traces are written to a
 file of their own

---
 include/ExSeisDat/Flow/Set.hh |  6 ++++--
 src/Flow/Set.cc               | 28 ++++++++++++++++++----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 89b09a7..29fe2c4 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -95,9 +95,11 @@ class Set {
      *  @param[in] fCurr The iterator for the current function to process.
      *  @param[in] fEnd The iterator which indicates the end of the list has
      *             been reached.
-     *  @return Return a file name if fEnd is reached. Otherwise return "".
+     *  @return Return the file names if fEnd is reached. Otherwise return an
+     *          empty vector.
      */
-    std::string startGather(FuncLst::iterator fCurr, FuncLst::iterator fEnd);
+    std::vector<std::string> startGather(
+      FuncLst::iterator fCurr, FuncLst::iterator fEnd);
 
     /*! Start unwinding the function list for single-trace operations on the
      *  given iterators.
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index e55b4b6..df1997c 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -268,7 +268,7 @@ std::vector<std::string> Set::startSingle(
     return names;
 }
 
-std::string Set::startGather(
+std::vector<std::string> Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
     // The gathers are read from one file with the traces in their order.
@@ -296,7 +296,7 @@ std::string Set::startGather(
             add(n);
         }
     }
-    std::string gname;
+    std::vector<std::string> gnames;
     for (auto& o : file) {
         // Locate gather boundaries.
         auto gather = getIlXlGathers(piol.get(), o->ifc.get());
@@ -326,7 +326,13 @@ std::string Set::startGather(
         while (++fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather)) {
         }
 
-        gname = (fTemp != fEnd ? "gtemp.segy" : outfix + ".segy");
+        std::string gname = (fTemp != fEnd ? "gtemp" : outfix);
+        if (file.size() > 1LU) {
+            gname += std::to_string(o->ifc->readNs()) + "_"
+                     + std::to_string(o->ifc->readInc());
+        }
+        gname += ".segy";
+        gnames.push_back(gname);
 
         // Use inputs as default values. These can be changed later
         std::unique_ptr<WriteInterface> out = makeFile<WriteSEGY>(piol, gname);
@@ -396,11 +402,13 @@ std::string Set::startGather(
 
     if (fCurr != fEnd) {
         drop();
-        add(gname);
-        return "";
+        for (std::string n : gnames) {
+            add(n);
+        }
+        return std::vector<std::string>{};
     }
     else {
-        return gname;
+        return gnames;
     }
 }
 
@@ -470,12 +478,12 @@ std::vector<std::string> Set::calcFunc(
             fCurr = startSubset(fCurr, fEnd);
         }
         else if ((*fCurr)->opt.check(FuncOpt::Gather)) {
-            std::string gname = startGather(fCurr, fEnd);
+            std::vector<std::string> gnames = startGather(fCurr, fEnd);
 
-            // If startGather returned an empty string, then fCurr == fEnd was
+            // If startGather returned any names, then fCurr == fEnd was
             // reached.
-            if (!gname.empty()) {
-                return std::vector<std::string>{gname};
+            if (!gnames.empty()) {
+                return gnames;
             }
 
             /// @todo Later this will need to be changed when the gather also
-- 
2.43.0


From 3b94da5dc6b9ae309c42f1c2712b6a1394253cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 47/52] fix: the mean absolute value of a window is that of its
 absolute values

---
 src/utils/signal_processing/Gain_function.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 9093a86..e947663 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -145,14 +145,17 @@ Trace_value mean_abs_gain(
 {
     assert(window_size > 0);
 
-    const Trace_value amp =
-      std::accumulate(signal, signal + window_size, Trace_value(0));
+    const auto add_abs = [](Trace_value sum, Trace_value i) {
+        return sum + std::abs(i);
+    };
+    const Trace_value amp = std::accumulate(
+      signal, signal + window_size, Trace_value(0), add_abs);
     assert(amp != 0);
 
     const auto non_zero = [](Trace_value i) { return i != Trace_value(0); };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
 
-    return target_amplitude / (std::abs(amp) / std::max<size_t>(1, num));
+    return target_amplitude / (amp / std::max<size_t>(1, num));
 }
 
 extern "C" Trace_value exseis_mean_abs_gain(
-- 
2.43.0


From 2d259a3c2b3351eeeecbd992220a7e5836be91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:40 +0000
Subject: [PATCH 48/52] fix: the triangular gain of a single sample is a number

---
 src/utils/signal_processing/Gain_function.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index e947663..7b53566 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -101,7 +101,9 @@ Trace_value triangular_RMS_gain(
     // window_center to window_size - 1.
     const size_t right_width = (window_size - 1) - window_center;
 
-    const Trace_value half_width = std::max(left_width, right_width);
+    // A window of a single sample is all center.
+    const Trace_value half_width =
+      std::max<size_t>(1, std::max(left_width, right_width));
 
     Trace_value amp = 0;
     for (size_t j = 0; j < window_size; j++) {
-- 
2.43.0


From c51c35d2b10cee4e2d0dbe0523f167875eb2aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:03 +0000
Subject: [PATCH 49/52] fix: ties between the extremes of processes are decided
 by the second parameter

---
 include/ExSeisDat/PIOL/operations/minmax.h | 30 +++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/minmax.h b/include/ExSeisDat/PIOL/operations/minmax.h
index 307f492..fa96829 100644
--- a/include/ExSeisDat/PIOL/operations/minmax.h
+++ b/include/ExSeisDat/PIOL/operations/minmax.h
@@ -41,6 +41,9 @@ typedef PIOL_CoordElem CoordElem;
 #include <algorithm>
 #include <functional>
 #include <iterator>
+#include <limits>
+#include <numeric>
+#include <vector>
 
 namespace exseis {
 namespace PIOL {
@@ -96,10 +99,14 @@ std::vector<CoordElem> getCoordMinMax(
     std::vector<exseis::utils::Floating_point> lminmax = {elem1(*p.first),
                                                           elem1(*p.second)};
 
+    std::vector<exseis::utils::Floating_point> lsecond = {elem2(*p.first),
+                                                          elem2(*p.second)};
+
     std::vector<size_t> ltrace = {offset + std::distance(coord, p.first),
                                   offset + std::distance(coord, p.second)};
 
     auto tminmax = piol->comm->gather(lminmax);
+    auto tsecond = piol->comm->gather(lsecond);
     auto ttrace  = piol->comm->gather(ltrace);
     auto tsz     = piol->comm->gather(std::vector<size_t>{sz});
 
@@ -108,20 +115,31 @@ std::vector<CoordElem> getCoordMinMax(
         if (!tsz[i]) {
             tminmax.erase(tminmax.begin() + 2U * i + 1U);
             tminmax.erase(tminmax.begin() + 2U * i);
+            tsecond.erase(tsecond.begin() + 2U * i + 1U);
+            tsecond.erase(tsecond.begin() + 2U * i);
             ttrace.erase(ttrace.begin() + 2U * i + 1U);
             ttrace.erase(ttrace.begin() + 2U * i);
         }
     }
 
     // Global
-    auto s = std::minmax_element(tminmax.begin(), tminmax.end());
+    // Decide between equal cases in the same way as for the local traces
+    std::vector<size_t> order(tminmax.size());
+    std::iota(order.begin(), order.end(), size_t(0));
+
+    auto s = std::minmax_element(
+      order.begin(), order.end(),
+      [&tminmax, &tsecond](const size_t& a, const size_t& b) -> bool {
+          if (tminmax[a] == tminmax[b]) {
+              return tsecond[a] < tsecond[b];
+          }
+          return tminmax[a] < tminmax[b];
+      });
+
     std::vector<CoordElem> minmax;
     if (s.first != s.second) {
-        const auto d_first  = std::distance(tminmax.begin(), s.first);
-        const auto d_second = std::distance(tminmax.begin(), s.second);
-
-        minmax = {CoordElem{*s.first, ttrace[d_first]},
-                  CoordElem{*s.second, ttrace[d_second]}};
+        minmax = {CoordElem{tminmax[*s.first], ttrace[*s.first]},
+                  CoordElem{tminmax[*s.second], ttrace[*s.second]}};
     }
     else {
         minmax = {CoordElem{0, std::numeric_limits<size_t>::max()},
-- 
2.43.0


From 0001f85ee29ef3274a17027142e995fff01a5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 50/52] fix: the lines of a velocity model are those of its
 traces

---
 src/ReadSEGYModel.cc | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 8d25f9e..ca5f6b1 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -25,7 +25,10 @@ ReadSEGYModel::ReadSEGYModel(
   std::shared_ptr<ObjectInterface> obj_) :
     ReadSEGY(piol_, name_, opt, obj_)
 {
-    std::vector<size_t> vlist = {0LU, 1LU, ReadSEGY::readNt() - 1LU};
+    // Traces are ordered by inline first, and by crossline within an inline.
+    const exseis::utils::Integer nt = ReadSEGY::readNt();
+
+    std::vector<size_t> vlist = {0LU, (nt > 1 ? 1LU : 0LU), nt - 1LU};
     Param prm(vlist.size());
     readParamNonContiguous(vlist.size(), vlist.data(), &prm);
 
@@ -34,21 +37,25 @@ ReadSEGYModel::ReadSEGYModel(
     exseis::utils::Integer xl_start =
       param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, &prm);
 
+    exseis::utils::Integer xl_increment =
+      param_utils::getPrm<exseis::utils::Integer>(1LU, PIOL_META_xl, &prm)
+      - xl_start;
+    exseis::utils::Integer xl_count =
+      (xl_increment != 0 ?
+         (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_xl, &prm)
+          - xl_start)
+             / xl_increment
+           + 1 :
+         1);
+    xl_count = (xl_count > 0 ? xl_count : 1);
+
+    exseis::utils::Integer il_count = nt / xl_count;
     exseis::utils::Integer il_increment =
-      param_utils::getPrm<exseis::utils::Integer>(1LU, PIOL_META_il, &prm)
-      - il_start;
-    exseis::utils::Integer il_count =
-      (il_increment != 0 ?
+      (il_count > 1 ?
          (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_il, &prm)
           - il_start)
-           / il_increment :
-         0LU);
-    exseis::utils::Integer xl_count =
-      (ReadSEGY::readNt() / (il_count != 0 ? il_count : 1LU));
-    exseis::utils::Integer xl_increment =
-      (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_xl, &prm)
-       - xl_start)
-      / xl_count;
+           / (il_count - 1) :
+         0);
 
     il_increment = (il_increment != 0 ? il_increment : 1LU);
     xl_increment = (xl_increment != 0 ? xl_increment : 1LU);
-- 
2.43.0


From e0b3ceccd2f1f88061c529ce3e352c080b492326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:32 +0000
Subject: [PATCH 51/52] fix: gathers may name traces of a velocity model in any
 order

---
 src/ReadSEGYModel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index ca5f6b1..21c3fae 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -81,7 +81,7 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
                      + ((val.crossline - xl.start) / xl.increment);
     }
 
-    readTraceNonContiguous(
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
@@ -100,7 +100,7 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
                      + ((val.crossline - xl.start) / xl.increment);
     }
 
-    readTraceNonContiguous(
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
-- 
2.43.0


From 66ea75989b565bbc31aa387d9285e1e7609bdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:07 +0000
Subject: [PATCH 52/52] fix: characters without a code in the other table
 become the substitute

---
 src/utils/encoding/character_encoding.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/character_encoding.cc b/src/utils/encoding/character_encoding.cc
index a9afe29..92ab880 100644
--- a/src/utils/encoding/character_encoding.cc
+++ b/src/utils/encoding/character_encoding.cc
@@ -185,7 +185,9 @@ unsigned char to_ASCII_from_EBCDIC(unsigned char ebcdic_char)
       std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
       ebcdic_char, compare_ebcdic);
 
-    if (ebcdic_char_it == std::end(ebcdic_sorted_array)) {
+    if (
+      ebcdic_char_it == std::end(ebcdic_sorted_array)
+      || ebcdic_char_it->ebcdic != ebcdic_char) {
         return char_sub.ascii;
     }
     return ebcdic_char_it->ascii;
@@ -203,7 +205,9 @@ unsigned char to_EBCDIC_from_ASCII(unsigned char ascii_char)
       std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
       compare_ascii);
 
-    if (ascii_char_it == std::end(ascii_sorted_array)) {
+    if (
+      ascii_char_it == std::end(ascii_sorted_array)
+      || ascii_char_it->ascii != ascii_char) {
         return char_sub.ebcdic;
     }
     return ascii_char_it->ebcdic;
-- 
2.43.0

