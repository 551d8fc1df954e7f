From 03972439642e64b1a90b57c3f67ed6cbf893fe3f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 01/14] fix: unregister collision model parameters when the
 model is deleted

A run that used a hard sphere or large angle Coulomb collision operator
finished its last step and then failed: the parameters the operator had
registered with the checkpoint service were never unregistered, so
halt_checkpt stopped the job with an error (exit code 1) on every rank
that got there.
---
 src/collision/binary.cc | 5 +++++
 src/collision/unary.cc  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/collision/binary.cc b/src/collision/binary.cc
index 2fb761f..b316399 100644
--- a/src/collision/binary.cc
+++ b/src/collision/binary.cc
@@ -74,6 +74,11 @@ delete_binary_collision_model( collision_op_t * cop )
   binary_collision_model_t * cm
     = (binary_collision_model_t *) cop->params;
 
+  /* The model registers its parameters with the checkpoint service when it is
+     created.  They have no owner but the model. */
+
+  if( object_id( cm->params ) ) UNREGISTER_OBJECT( cm->params );
+
   FREE( cm->name );
   FREE( cm );
 
diff --git a/src/collision/unary.cc b/src/collision/unary.cc
index b0964a7..08de028 100644
--- a/src/collision/unary.cc
+++ b/src/collision/unary.cc
@@ -60,6 +60,11 @@ delete_unary_collision_model( collision_op_t * cop )
 {
   unary_collision_model_t * cm = ( unary_collision_model_t * ) cop->params;
 
+  /* The model registers its parameters with the checkpoint service when it is
+     created.  They have no owner but the model. */
+
+  if( object_id( cm->params ) ) UNREGISTER_OBJECT( cm->params );
+
   FREE( cm->name );
   FREE( cm );
 
-- 
2.43.0


From df303efad5656a1512fbb54c34d7b59ed575689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 02/14] fix: keep the emitted weight when a face emits several
 particles

The per-particle age overwrote the weight shared by all particles of the
face, so every particle after the first carried a random weight.
---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..d2945bb 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                   \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                             \
+        local_pm->disp##Y = age*u##Y*rd##Y;                             \
+        local_pm->disp##Z = age*u##Z*rd##Z;                             \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From a4bf833ec6597bbfce8e24309ed6804a6f1ec8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 03/14] fix: clear the partitioning when the legacy sort has
 nothing to sort

Collision operators kept pairing the particles of the last non-empty sort.
---
 src/species_advance/standard/sort_p.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/species_advance/standard/sort_p.cc b/src/species_advance/standard/sort_p.cc
index 935d6fa..551ff59 100644
--- a/src/species_advance/standard/sort_p.cc
+++ b/src/species_advance/standard/sort_p.cc
@@ -43,9 +43,12 @@ sort_p( species_t * sp )
 
   int i, j;
 
-  // Do not need to sort.
+  // Do not need to sort, but the partitioning must describe the empty list.
   if ( np == 0 )
+  {
+    CLEAR( partition, nc1 );
     return;
+  }
 
   // Allocate the sorting intermediate. Making this into a static is done to
   // avoid heap shredding.
-- 
2.43.0


From 60a2151330474386e713c3fb315288bb53adf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 04/14] fix: zero the whole flux buffer in poynting_flux

Domains away from the low x face summed uninitialised memory.
---
 src/vpic/diagnostics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/diagnostics.cc b/src/vpic/diagnostics.cc
index 7d00523..4829f71 100644
--- a/src/vpic/diagnostics.cc
+++ b/src/vpic/diagnostics.cc
@@ -42,7 +42,7 @@ double vpic_simulation::poynting_flux(double e0) {
 		ERROR(("Failed pvec allocation in poynting flux diagnostic"));
 	} // if
 
-	memset(pvec, 0, stride);
+	memset(pvec, 0, stride*sizeof(*pvec));
 
 	int ix, k1, k2;
 	RANK_TO_INDEX( int(rank()), ix);
-- 
2.43.0


From 9a4cfc883f96b477825477363acad67abc1aa7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 05/14] fix: report incomplete checkpoint reads and writes

A truncated or unreadable checkpoint was restored from whatever the
buffers held, and a failed write was not noticed.
---
 src/util/checkpt/checkpt_io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/checkpt/checkpt_io.h b/src/util/checkpt/checkpt_io.h
index 2dd6513..f69087e 100644
--- a/src/util/checkpt/checkpt_io.h
+++ b/src/util/checkpt/checkpt_io.h
@@ -48,8 +48,9 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->read(reinterpret_cast<char *>(data), sz);
+		if(fileIO->read(reinterpret_cast<char *>(data), sz) != sz) {
+  			ERROR(("Unable to read from checkpt"));
+		} // if
 	} // checkpt_read
 
 	static void checkpt_write(checkpt_t * checkpt, const void * data,
@@ -59,8 +60,9 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->write(reinterpret_cast<const char *>(data), sz);
+		if(fileIO->write(reinterpret_cast<const char *>(data), sz) != sz) {
+  			ERROR(("Unable to write to checkpt"));
+		} // if
 	} // checkpt_write
 
 }; // struct CheckPtIO
-- 
2.43.0


From b3a73f6dab10b595a1f24b1e7881e81f623f0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 06/14] fix: report earlier write errors when a file is closed

Dumps check only the result of close(), which forgot about writes that
had failed before.
---
 src/util/io/StandardIOPolicy.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/io/StandardIOPolicy.h b/src/util/io/StandardIOPolicy.h
index 15c1540..491c564 100644
--- a/src/util/io/StandardIOPolicy.h
+++ b/src/util/io/StandardIOPolicy.h
@@ -106,7 +106,9 @@ StandardIOPolicy::open(const char * filename, FileIOMode mode)
 
 inline int32_t StandardIOPolicy::close()
 	{
-		int32_t status = fclose(handle_);
+		// Report errors of earlier operations too.
+		int32_t status = ferror(handle_) ? EOF : 0;
+		if(fclose(handle_) != 0) status = EOF;
 		is_open_ = false;
 		return status;
 	} // StandardIOPolicy::~StandardIOPolicy
-- 
2.43.0


From 5823c8f998f9c8987f1a5ba83c5c5973059b3960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 07/14] fix: report modfile read errors and close the modfile

---
 src/vpic/misc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index b1c24af..ac11143 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -167,6 +167,9 @@ vpic_simulation::modify( const char *fname ) {
 #endif
 
   }
+
+  if( ferror( handle ) ) ERROR(( "Modfile read failed" ));
+  fclose( handle );
 }
 
 #undef SETIVAR
-- 
2.43.0


From 48003dc7598f890997a844d4b5a45d6dfadebd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 08/14] fix: write ghosts in interleaved hydro dumps

The array holds nx+2 by ny+2 by nz+2 voxels; without stride the first
nx*ny*nz of them were written as if it held nx by ny by nz.
---
 src/vpic/dump.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 89c05f2..6d49b67 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -837,9 +837,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
   {
     WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );
 
-    dim[0] = nxout;
-    dim[1] = nyout;
-    dim[2] = nzout;
+    dim[0] = nxout+2;
+    dim[1] = nyout+2;
+    dim[2] = nzout+2;
 
     WRITE_ARRAY_HEADER(h, 3, dim, fileIO);
 
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From 40f9bb32a8ccd2587ad805ebdc8325a51a5fbff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 09/14] fix: separate the entries of the species dump

---
 src/vpic/dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 6d49b67..ff565e0 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -89,7 +89,7 @@ vpic_simulation::dump_species( const char *fname ) {
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
   LIST_FOR_EACH( sp, species_list )
-    fileIO.print( "%s %i %e %e", sp->name, sp->id, sp->q, sp->m );
+    fileIO.print( "%s %i %e %e\n", sp->name, sp->id, sp->q, sp->m );
   if( fileIO.close() ) ERROR(( "File close failed on dump species!!!" ));
 }
 
-- 
2.43.0


From f772920d6d6388969fa28904f096bd731a1bf72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 10/14] fix: dump material variables with their own size

Banded field dumps addressed the material ids as 32-bit words, which
wrote pairs of ids and, from the face materials on, the next voxel.
---
 src/vpic/dump.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index ff565e0..5aabd7c 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -641,7 +641,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t j(0); j<nyout+2; j++) {
       for(size_t i(0); i<nxout+2; i++) {
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(i,j,k));
-              fileIO.write(&fref[varlist[v]], 1);
+              const material_id * mref = &f(i,j,k).ematx;
+              if( varlist[v]<16 ) fileIO.write(&fref[varlist[v]], 1);
+              else                fileIO.write(&mref[varlist[v]-16], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(i,j,k).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << i << " " << j << " " << k << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << j << " " << k << std::endl;
@@ -657,7 +659,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
       for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
-              fileIO.write(&fref[varlist[v]], 1);
+              const material_id * mref = &f(ioff,joff,koff).ematx;
+              if( varlist[v]<16 ) fileIO.write(&fref[varlist[v]], 1);
+              else                fileIO.write(&mref[varlist[v]-16], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << ioff << " " << joff << " " << koff << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << joff << " " << koff << std::endl;
-- 
2.43.0


From 73fce57dc01d04d081c08331a49521dd573b24e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 11/14] fix: keep unstrided axes in strided field and hydro
 dumps

---
 src/vpic/dump.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 5aabd7c..12fe22d 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -655,9 +655,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     else
     {
       for(size_t v(0); v<numvars; v++) {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (kstride == 1) ? k : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (jstride == 1) ? j : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (istride == 1) ? i : i*istride-1;
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
               const material_id * mref = &f(ioff,joff,koff).ematx;
               if( varlist[v]<16 ) fileIO.write(&fref[varlist[v]], 1);
@@ -694,9 +694,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (kstride == 1) ? k : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (jstride == 1) ? j : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (istride == 1) ? i : i*istride-1;
             fileIO.write( &f( ioff, joff, koff ), 1 );
       }
       }
@@ -823,9 +823,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
     else
 
       for(size_t v(0); v<numvars; v++)
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (kstride == 1) ? k : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (jstride == 1) ? j : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (istride == 1) ? i : i*istride-1;
               const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(ioff,joff,koff));
               fileIO.write(&href[varlist[v]], 1);
       }
@@ -856,9 +856,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (kstride == 1) ? k : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (jstride == 1) ? j : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (istride == 1) ? i : i*istride-1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From c989395741696696b8c25066a545a1f1a17c1798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 12/14] fix: respect negative zero in the portable v4 copysign

move_p relies on the sign of a zero displacement after a reflection; with the
portable class a particle sitting exactly on a reflecting wall with no normal
motion was reflected for ever.
---
 src/util/v4/v4_portable.h | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 1298169..6c57bdc 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -1078,23 +1078,11 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
 
-    t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
-    c.f[0] = t;
-
-    t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
-    c.f[1] = t;
-
-    t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
-    c.f[2] = t;
-
-    t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
-    c.f[3] = t;
+    c.f[0] = ::copysign( a.f[0], b.f[0] );
+    c.f[1] = ::copysign( a.f[1], b.f[1] );
+    c.f[2] = ::copysign( a.f[2], b.f[2] );
+    c.f[3] = ::copysign( a.f[3], b.f[3] );
 
     return c;
   }
-- 
2.43.0


From af99dbe261804c8b47008fce562d9d7aee2305e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 13/14] fix: do not age an injected particle when no mover is
 free

inject_particle warned that no mover was available and then wrote the
mover past the end of the list all the same.  Leave the particle where
it was put, as the Child-Langmuir emitter does.
---
 src/vpic/misc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index ac11143..5615e16 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -84,8 +84,10 @@ vpic_simulation::inject_particle( species_t * sp,
   if( update_rhob ) accumulate_rhob( field_array->f, p, grid, -sp->q );
 
   if( age!=0 ) {
-    if( sp->nm>=sp->max_nm )
+    if( sp->nm>=sp->max_nm ) {
       WARNING(( "No movers available to age injected  particle" ));
+      return;
+    }
     particle_mover_t * pm = sp->pm + sp->nm;
     age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
     pm->dispx = ux*age*grid->rdx;
-- 
2.43.0


From 5b6f45372b11468f32ff35060298b8d44150eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 14/14] fix: draw shuffle indices in 64 bits

shuffle kept its 64-bit draw and divisor in 32-bit variables, so with a
power of two of elements left it never swapped, and for other counts not
every arrangement could come out.
---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0

