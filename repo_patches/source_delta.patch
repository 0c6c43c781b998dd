From 6d3df4a498875d967be351a1710174d9c3c97e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 01/58] fix: compute the velocity from the populations after a
 restart

calculateDensitiesAndVelocities() summed the momentum into writeable_u, but
then scaled the (zero) old velocity instead, so that the velocity field was
zero after every restart until the first collision.
---
 src/library/natrium/solver/CFDSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6965ea1..d808746 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1514,7 +1514,7 @@ void CFDSolver<dim>::calculateDensitiesAndVelocities() {
 		size_t i = *it;
 		double one_by_rho_i = 1.0 / writeable_rho(i);
 		for (size_t j = 0; j < dim; j++) {
-			writeable_u[j](i) = m_velocity[j](i) * one_by_rho_i;
+			writeable_u[j](i) = writeable_u[j](i) * one_by_rho_i;
 		}
 	}
 
-- 
2.43.0


From 074160060919dba546c2087b5e1064cc3917cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 02/58] fix: do not collide twice when a run is resumed from a
 checkpoint

The populations in a checkpoint are post-collision. run() collided them a
second time, so that a resumed simulation differed from an uninterrupted one.
---
 src/library/natrium/solver/CFDSolver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index d808746..d74c55e 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -876,7 +876,11 @@ void CFDSolver<dim>::filter() {
 template<size_t dim>
 void CFDSolver<dim>::run() {
 	m_i = m_iterationStart;
-	collide();
+	// checkpoints are written after the collision: colliding again upon restart
+	// would make a resumed simulation differ from an uninterrupted one
+	if (0 == m_configuration->getRestartAtIteration()) {
+		collide();
+	}
 	while (true) {
 		if (stopConditionMet()) {
 			break;
-- 
2.43.0


From 0124010593923929f77b59bfa406daf6b8c36022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 03/58] fix: store time and scaling in the checkpoint status
 with full precision

The default precision of six digits truncated the physical time, so that the
clock (and the end time condition) of a resumed simulation was off.
---
 src/library/natrium/solver/Checkpoint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 8d26035..c432f84 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -79,6 +79,8 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 	// write status
 	if (is_MPI_rank_0()) {
 		std::ofstream outfile(m_statusFile.string());
+		// write all digits to restore the time and scaling exactly
+		outfile.precision(17);
 		outfile << status.iterationNumber << endl;
 		// time
 		outfile << status.time << endl;
-- 
2.43.0


From 8ee0aab39bbedbad4df1963fe5e25b987d910485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 04/58] fix: write the status file of a checkpoint after its
 data

An interruption while the data was written left a status file without (complete)
data behind. The restart from the most recent checkpoint then picked that one.
---
 src/library/natrium/solver/Checkpoint.cpp | 31 +++++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index c432f84..582e4ba 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -76,19 +76,11 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 		const CheckpointStatus& status) {
 
 	f.updateGhosted();
-	// write status
+	// a status file marks a complete checkpoint; remove it as long as the data is being (over-)written
 	if (is_MPI_rank_0()) {
-		std::ofstream outfile(m_statusFile.string());
-		// write all digits to restore the time and scaling exactly
-		outfile.precision(17);
-		outfile << status.iterationNumber << endl;
-		// time
-		outfile << status.time << endl;
-		// stencil scaling
-		outfile << status.stencilScaling << endl;
-		outfile << status.feOrder << endl;
-		outfile.close();
+		boost::filesystem::remove(m_statusFile);
 	} /*if rank 0*/
+	MPI_sync();
 
 	// write mesh and solution
 	dealii::parallel::distributed::SolutionTransfer<dim, distributed_vector> sol_trans(
@@ -108,6 +100,23 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 				"An error occurred while saving the mesh and distribution functions to checkpoint file."
 						"That's bad news. Make sure that you have writing permissions and that the disk quota is not exceeded.");
 	}
+
+	// write status (after the data: a checkpoint without status file is ignored upon restart)
+	MPI_sync();
+	if (is_MPI_rank_0()) {
+		boost::filesystem::path tmp_file(m_statusFile.string() + ".tmp");
+		std::ofstream outfile(tmp_file.string());
+		// write all digits to restore the time and scaling exactly
+		outfile.precision(17);
+		outfile << status.iterationNumber << endl;
+		// time
+		outfile << status.time << endl;
+		// stencil scaling
+		outfile << status.stencilScaling << endl;
+		outfile << status.feOrder << endl;
+		outfile.close();
+		boost::filesystem::rename(tmp_file, m_statusFile);
+	} /*if rank 0*/
 } /* save */
 
 template<size_t dim>
-- 
2.43.0


From 35c7cea866a2d6921b5d11c7af7fbf0735e0414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 05/58] fix: ignore the checkpoints of g when looking for the
 most recent one of f

In the output directory of a compressible simulation, the names of the other
kind of status files could not be converted to an iteration (std::stoi threw).
---
 src/library/natrium/solver/Checkpoint.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 582e4ba..9da1319 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -39,15 +39,13 @@ Checkpoint<dim>::Checkpoint(size_t iteration,
 					!= ".stat") {
 				continue;
 			}
-			if (!isG){
-			boost::replace_all(this_filename, "checkpoint_", "");
+			// ignore the files of the other kind (checkpoint_ vs. checkpointG_)
+			const std::string prefix = isG ? "checkpointG_" : "checkpoint_";
+			if (this_filename.compare(0, prefix.size(), prefix) != 0) {
+				continue;
+			}
+			boost::replace_all(this_filename, prefix, "");
 			boost::replace_all(this_filename, ".stat", "");
-            }
-			if (isG)
-            {
-            boost::replace_all(this_filename, "checkpointG_", "");
-            boost::replace_all(this_filename, ".stat", "");
-            }
 			size_t i = std::stoi(this_filename);
 			if (i > it){
 				it = i;
-- 
2.43.0


From 5da46bfd7a98999c625686fe05569b92fd44e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 06/58] fix: restart with all stencils

Checkpoint::load() created an (unused) stencil with make_stencil(), which does
not know D2Q19, D3Q77, ... and threw an exception for these.
---
 src/library/natrium/solver/Checkpoint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 9da1319..2473d40 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -327,8 +327,8 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 	// TODO Enable transfer to new scaling
 	LOG(DETAILED) << "Transfer to new scaling (not implemented)" << endl;
 	// transfer to current stencil scaling, if required
-	boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
-			new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
+	//boost::shared_ptr<Stencil> old_stencil = CFDSolverUtilities::make_stencil(
+	//		new_stencil->getD(), new_stencil->getQ(), status.stencilScaling);
 	//f.transferFromOtherScaling(*old_stencil, *new_stencil,
     //dof_handler.locally_owned_dofs());
 	f.compress(dealii::VectorOperation::insert);
-- 
2.43.0


From 2986c25c8736c9028dae35c20c3cdc5b0db6c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 07/58] fix: write the checkpoint of iteration 1 under its own
 name

---
 src/library/natrium/solver/Checkpoint.cpp | 22 ++++++++++++++++------
 src/library/natrium/solver/Checkpoint.h   |  3 +++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index 2473d40..deaa9e2 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -53,15 +53,22 @@ Checkpoint<dim>::Checkpoint(size_t iteration,
 		}
 	}
 	LOG(BASIC) << "Reading checkpoint " << it << " auomatically." <<  endl;
+	setFiles(it, checkpoint_dir);
+
+}
+
+template<size_t dim>
+void Checkpoint<dim>::setFiles(size_t iteration,
+		const boost::filesystem::path& checkpoint_dir) {
 	std::stringstream status_name;
 	std::stringstream data_name;
-    if (!isG) {
-        status_name << "checkpoint_" << it << ".stat";
-        data_name << "checkpoint_" << it << ".data";
+    if (!m_isG) {
+        status_name << "checkpoint_" << iteration << ".stat";
+        data_name << "checkpoint_" << iteration << ".data";
     }
-    if (isG) {
-        status_name << "checkpointG_" << it << ".stat";
-        data_name << "checkpointG_" << it << ".data";
+    if (m_isG) {
+        status_name << "checkpointG_" << iteration << ".stat";
+        data_name << "checkpointG_" << iteration << ".data";
     }
 	m_statusFile = checkpoint_dir / status_name.str();
 	m_dataFile = checkpoint_dir / data_name.str();
@@ -73,6 +80,9 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 		const dealii::DoFHandler<dim>& dof_handler,
 		const CheckpointStatus& status) {
 
+	// "1" means "most recent" only when reading
+	setFiles(status.iterationNumber, m_statusFile.parent_path());
+
 	f.updateGhosted();
 	// a status file marks a complete checkpoint; remove it as long as the data is being (over-)written
 	if (is_MPI_rank_0()) {
diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index 7d2bf23..bb0de5f 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -68,6 +68,9 @@ private:
 	bool m_isG;
     static int m_numberOfRefinements;
 
+	/// set the names of the status and data file
+	void setFiles(size_t iteration, const boost::filesystem::path& checkpoint_dir);
+
 public:
 
 	/**
-- 
2.43.0


From e95e2b3c4736eeb9b19d257bd82a78077a68e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 08/58] fix: look for the most recent checkpoint among complete
 checkpoints only

---
 src/library/natrium/solver/Checkpoint.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index deaa9e2..fa48a0b 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -44,9 +44,17 @@ Checkpoint<dim>::Checkpoint(size_t iteration,
 			if (this_filename.compare(0, prefix.size(), prefix) != 0) {
 				continue;
 			}
-			boost::replace_all(this_filename, prefix, "");
-			boost::replace_all(this_filename, ".stat", "");
-			size_t i = std::stoi(this_filename);
+			// ignore everything that is not named after an iteration and checkpoints without data
+			const std::string number = entry.path().stem().string().substr(
+					prefix.size());
+			if (number.empty() or number.size() > 18
+					or number.find_first_not_of("0123456789")
+							!= std::string::npos
+					or not boost::filesystem::exists(
+							checkpoint_dir / (prefix + number + ".data"))) {
+				continue;
+			}
+			size_t i = std::stoul(number);
 			if (i > it){
 				it = i;
 			}
-- 
2.43.0


From 36cef5170e40022e0d96ecb43ba7daf4f15e8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 09/58] fix: refuse to restart from a checkpoint of another
 stencil

---
 src/library/natrium/solver/CFDSolver.cpp          |  1 +
 src/library/natrium/solver/Checkpoint.cpp         | 15 +++++++++++++++
 src/library/natrium/solver/Checkpoint.h           |  2 ++
 .../natrium/solver/CompressibleCFDSolver.h        |  1 +
 4 files changed, 19 insertions(+)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index d74c55e..d7829da 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1096,6 +1096,7 @@ void CFDSolver<dim>::output(size_t iteration, bool is_final) {
 			checkpoint_status.iterationNumber = m_i;
 			checkpoint_status.stencilScaling = m_stencil->getScaling();
 			checkpoint_status.time = m_time;
+			checkpoint_status.stencilType = m_stencil->getStencilType();
 			checkpoint_status.feOrder =
 					m_configuration->getSedgOrderOfFiniteElement();
 			checkpoint.write(*m_problemDescription->getMesh(), m_f,
diff --git a/src/library/natrium/solver/Checkpoint.cpp b/src/library/natrium/solver/Checkpoint.cpp
index fa48a0b..6e51b0d 100755
--- a/src/library/natrium/solver/Checkpoint.cpp
+++ b/src/library/natrium/solver/Checkpoint.cpp
@@ -130,6 +130,7 @@ void Checkpoint<dim>::write(const Mesh<dim>& mesh, DistributionFunctions& f,
 		// stencil scaling
 		outfile << status.stencilScaling << endl;
 		outfile << status.feOrder << endl;
+		outfile << status.stencilType << endl;
 		outfile.close();
 		boost::filesystem::rename(tmp_file, m_statusFile);
 	} /*if rank 0*/
@@ -155,12 +156,17 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 	size_t iteration_start = 0;
 	double stencil_scaling = 0.0;
 	size_t fe_order = 0;
+	int stencil_type = -1;
 	if (is_MPI_rank_0()) {
 		std::ifstream ifile(m_statusFile.string());
 		ifile >> iteration_start;
 		ifile >> phys_time;
 		ifile >> stencil_scaling;
 		ifile >> fe_order;
+		if (not (ifile >> stencil_type)) {
+			// older checkpoints do not contain the stencil
+			stencil_type = -1;
+		}
 		ifile.close();
 	}
 	MPI_sync();
@@ -180,6 +186,8 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 	MPI_COMM_WORLD).max;
 	status.feOrder = dealii::Utilities::MPI::min_max_avg(fe_order,
 	MPI_COMM_WORLD).max;
+	status.stencilType = dealii::Utilities::MPI::max(stencil_type,
+	MPI_COMM_WORLD);
 
 	if (status.feOrder != advection.getOrderOfFiniteElement()) {
 		std::stringstream msg;
@@ -190,6 +198,12 @@ void Checkpoint<dim>::load(DistributionFunctions& f,
 		natrium_errorexit(msg.str().c_str());
 	}
 
+	if ((status.stencilType >= 0)
+			and (status.stencilType != new_stencil->getStencilType())) {
+		natrium_errorexit(
+				"You are not allowed to restart the simulation with another stencil.");
+	}
+
     size_t nlevels_new = 0;
 
 	// load mesh and solution
@@ -479,6 +493,7 @@ void Checkpoint<dim>::loadFromDeprecatedCheckpointVersion(
 			iteration_start, MPI_COMM_WORLD).max;
 	status.stencilScaling = new_stencil->getScaling();
 	status.feOrder = advection.getOrderOfFiniteElement();
+	status.stencilType = new_stencil->getStencilType();
 
 // PRECONDITION: vectors already created with the right sizes
 // read the distribution functions from file
diff --git a/src/library/natrium/solver/Checkpoint.h b/src/library/natrium/solver/Checkpoint.h
index bb0de5f..6a36556 100755
--- a/src/library/natrium/solver/Checkpoint.h
+++ b/src/library/natrium/solver/Checkpoint.h
@@ -30,6 +30,8 @@ struct CheckpointStatus {
 	size_t iterationNumber;
 	double stencilScaling;
 	size_t feOrder;
+	/// type of the stencil (StencilType); -1, if unknown (e.g. in older checkpoints)
+	int stencilType = -1;
 };
 
 /**
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index f21f94f..3d1124a 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -564,6 +564,7 @@ void compressibleFilter() {
             checkpoint_status.iterationNumber = this->m_i;
             checkpoint_status.stencilScaling = this->m_stencil->getScaling();
             checkpoint_status.time = this->m_time;
+            checkpoint_status.stencilType = this->m_stencil->getStencilType();
             checkpoint_status.feOrder =
                     this->m_configuration->getSedgOrderOfFiniteElement();
             checkpoint.write(*(this->m_problemDescription->getMesh()), this->m_f,
-- 
2.43.0


From 5fbe6ea96ee186a5ea4572a70a07328460ea87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 10/58] fix: use the quartic equilibrium for D3Q45 and D3Q77
 when it is configured

---
 src/library/natrium/collision_advanced/CollisionSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index ff1ef31..e5ba008 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -196,10 +196,10 @@ inline void selectCollision<3>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COLLISION(3,27, Stencil_D3Q27, BGK_REGULARIZED, BGK_EQUILIBRIUM, Regularized, BGKEquilibrium);
 
     DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,45, Stencil_D3Q45, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 	DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
+    DEFINE_POSSIBLE_COLLISION(3,77, Stencil_D3Q77, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
 
     //DEFINE_POSSIBLE_COLLISION(3,27, Stencil_RD3Q27, BGK_STANDARD, BGK_EQUILIBRIUM, BGKCollision, IncompressibleEquilibrium);
-- 
2.43.0


From 285920f78caa7ad479358df107e99497c81e5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 11/58] fix: do not run plain BGK when the regularized model is
 configured for compressible flow

---
 src/library/natrium/collision_advanced/CollisionSelection.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/library/natrium/collision_advanced/CollisionSelection.h b/src/library/natrium/collision_advanced/CollisionSelection.h
index e5ba008..3c14697 100644
--- a/src/library/natrium/collision_advanced/CollisionSelection.h
+++ b/src/library/natrium/collision_advanced/CollisionSelection.h
@@ -146,8 +146,6 @@ inline void selectCollision<2>(SolverConfiguration& configuration,
     DEFINE_POSSIBLE_COMPRESSIBLE_COLLISION(2,19, Stencil_D2Q19V, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
     DEFINE_POSSIBLE_COMPRESSIBLE_COLLISION(2,777, Stencil_D2Q777, BGK_STANDARD, QUARTIC_EQUILIBRIUM, BGKCollision, QuarticEquilibrium);
 
-    DEFINE_POSSIBLE_COMPRESSIBLE_COLLISION(2,25, Stencil_D2Q25H, BGK_REGULARIZED, BGK_EQUILIBRIUM, BGKCollision, BGKEquilibrium);
-
 
     if (not has_collided) {
 		throw CollisionException(
-- 
2.43.0


From 7eeaa940582be042b1fa139a8f5fc2a292378755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 12/58] fix: relax moment N, not J_y, with DELLAR_RELAX_ONLY_N

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 2eb5849..285c773 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -326,7 +326,7 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
 		assert(basis == DELLAR_D2Q9);
-		diag.at(8) = 1.0;
+		diag.at(6) = 1.0;
 		break;
 	} /* case DELLAR_RELAX_FULL */
 
-- 
2.43.0


From d0ec0a7733ce9c80be1c4f7d39e9d75fa3fff74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 13/58] fix: apply the shifting velocity force with
 RELAX_DHUMIERES_PAPER

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index 285c773..db9b9b5 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -385,7 +385,9 @@ template<> const array<double, 19> make_diag(double tau, MomentBasis basis,
 			double s10 = 1.4;
 			double s4 = 1.2;
 			double s16 = 1.98;
-			diag = {{0, s1, s2, 0, s4, 0, s4, 0, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
+			// density is conserved; momentum relaxes to its equilibrium, which differs only when a force shifts it
+			double sj = 1. / tau;
+			diag = {{0, s1, s2, sj, s4, sj, s4, sj, s4, s9, s10, s9, s10, s13, s13, s13, s16, s16, s16}};
 			break;
 		} /* case DHUMIERES_D3Q19 */
 		default: {
-- 
2.43.0


From 04c470e14e90681ba5e7524a1d096fb4470166d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:59 +0000
Subject: [PATCH 14/58] fix: apply the shifting velocity force once with the
 regularized model

---
 .../natrium/collision_advanced/CollisionSchemes.h     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/library/natrium/collision_advanced/CollisionSchemes.h b/src/library/natrium/collision_advanced/CollisionSchemes.h
index d7b0612..92ae3e7 100644
--- a/src/library/natrium/collision_advanced/CollisionSchemes.h
+++ b/src/library/natrium/collision_advanced/CollisionSchemes.h
@@ -200,6 +200,17 @@ public:
 
 		}
 
+		// first-order part of the nonequilibrium: it vanishes unless a force shifts the equilibrium velocity
+		for (int b = 0; b < T_D; b++) {
+			double j_neq = 0.0;
+			for (int a = 0; a < T_Q; a++) {
+				j_neq += (fLocal[a] - genData.feq[a]) * genData.e[a][b];
+			}
+			for (int a = 0; a < T_Q; a++) {
+				fi1[a] += genData.weight[a] / genData.cs2 * genData.e[a][b] * j_neq;
+			}
+		}
+
 		//Relax every direction towards the equilibrium
 		for (int i = 0; i < T_Q; ++i) {
 			fLocal[i] = genData.feq[i] + (1. - 1. / genData.tau) * fi1[i];
-- 
2.43.0


From 2677dcffa0eb3af716771312dad9f3054e606039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:48 +0000
Subject: [PATCH 15/58] fix: refuse DELLAR_RELAX_ONLY_N for other moment bases

---
 .../natrium/collision_advanced/AuxiliaryMRTFunctions.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
index db9b9b5..93e0a23 100755
--- a/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
+++ b/src/library/natrium/collision_advanced/AuxiliaryMRTFunctions.cpp
@@ -325,7 +325,10 @@ template<> const array<double, 9> make_diag(double tau, MomentBasis basis,
 
 		// Dellar relax only moment 'N'
 	case DELLAR_RELAX_ONLY_N: {
-		assert(basis == DELLAR_D2Q9);
+		if (basis != DELLAR_D2Q9) {
+			throw MRTException(
+					"MRT relaxation not defined. DELLAR_RELAX_ONLY_N is only supported for DELLAR_D2Q9 Moment basis.");
+		}
 		diag.at(6) = 1.0;
 		break;
 	} /* case DELLAR_RELAX_FULL */
-- 
2.43.0


From bb4acd4607848737c532f5e1e0f2dfcf887f144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:06 +0000
Subject: [PATCH 16/58] fix: shift the velocity with the relaxation time of the
 compressible collision

---
 .../AuxiliaryCollisionFunctions.h               | 17 +++++++++++++++--
 .../collision_advanced/CollisionOperator.h      |  5 +++--
 .../collision_advanced/CollisionSchemes.h       |  9 +--------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
index 648da1d..61e74e5 100644
--- a/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
+++ b/src/library/natrium/collision_advanced/AuxiliaryCollisionFunctions.h
@@ -357,8 +357,21 @@ inline void applyMacroscopicForces(std::array<double*, T_D>& velocities,
 	}
 }
 
+/**
+ * @short relaxation time of the compressible model, which depends on the local density and temperature
+ */
+template<int T_D, int T_Q>
+inline double calculateCompressibleTau(const GeneralCollisionData<T_D, T_Q>& genData) {
+	double sutherland_factor = 1.0;
+	if (genData.configuration.isSutherlandLawSet()) {
+		sutherland_factor = pow(genData.temperature / 0.85, 0.7); //1.402*pow(genData.temperature, 1.5) / ( genData.temperature + 0.40417);
+	}
+	return (genData.tau - 0.5) * sutherland_factor / (genData.temperature * genData.density) + 0.5;
+}
+
+/// @param tau the relaxation time that is used in the collision of this node
 template<size_t T_D, size_t T_Q>
-inline void applyForces(GeneralCollisionData<T_D, T_Q>& genData) {
+inline void applyForces(GeneralCollisionData<T_D, T_Q>& genData, const double tau) {
 	if (genData.forcetype == NO_FORCING) {
 		throw NATriuMException(
 				"Problem requires forcing scheme, but forcing was switched off."
@@ -366,7 +379,7 @@ inline void applyForces(GeneralCollisionData<T_D, T_Q>& genData) {
 	}
 	if (genData.forcetype == SHIFTING_VELOCITY) {
         for (size_t i = 0; i < T_D; i++) {
-            genData.velocity[i] += genData.tau * genData.dt * genData.forces[i]
+            genData.velocity[i] += tau * genData.dt * genData.forces[i]
                                    / genData.density / genData.scaling;
 
         }
diff --git a/src/library/natrium/collision_advanced/CollisionOperator.h b/src/library/natrium/collision_advanced/CollisionOperator.h
index 09a6801..4e6cc98 100644
--- a/src/library/natrium/collision_advanced/CollisionOperator.h
+++ b/src/library/natrium/collision_advanced/CollisionOperator.h
@@ -82,7 +82,7 @@ public:
 				}
 				if (genData.problemDescription.hasExternalForce()) {
 					applyMacroscopicForces<T_D, T_Q>(u_raw, ii, genData);
-					applyForces<T_D, T_Q>(genData);
+					applyForces<T_D, T_Q>(genData, genData.tau);
 				}
 			} else {
 				for (size_t j = 0; j < T_D; ++j) {
@@ -186,7 +186,8 @@ public:
 				}
 				if (genData.problemDescription.hasExternalForce()) {
 					applyMacroscopicForces<T_D, T_Q>(u_raw, ii, genData);
-					applyForces<T_D, T_Q>(genData);
+					applyForces<T_D, T_Q>(genData,
+							calculateCompressibleTau<T_D, T_Q>(genData));
 				}
 			} else {
 				for (size_t j = 0; j < T_D; ++j) {
diff --git a/src/library/natrium/collision_advanced/CollisionSchemes.h b/src/library/natrium/collision_advanced/CollisionSchemes.h
index 92ae3e7..11d9993 100644
--- a/src/library/natrium/collision_advanced/CollisionSchemes.h
+++ b/src/library/natrium/collision_advanced/CollisionSchemes.h
@@ -78,14 +78,7 @@ public:
             calculateGStar<T_D, T_Q>(gStar, FluxTensorGNeq, genData);
         }
 
-        const bool isSutherlandLawSet = genData.configuration.isSutherlandLawSet();
-        double sutherland_factor = 1.0;
-
-        if (isSutherlandLawSet){
-                sutherland_factor = pow(genData.temperature/0.85,0.7);//1.402*pow(genData.temperature, 1.5) / ( genData.temperature + 0.40417);
-            }
-
-        const double visc_tau = (genData.tau-0.5)*sutherland_factor/(genData.temperature*genData.density)+0.5;
+        const double visc_tau = calculateCompressibleTau<T_D, T_Q>(genData);
 
         const double knudsen_estimate = calculateKnudsenNumberEstimate<T_D, T_Q>(fLocal, genData.feq, genData.weight);
         double tau_factor = 1.0;
-- 
2.43.0


From 9bc78e50125e321a533e76cdb1ca0ff35d6ac623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:20 +0000
Subject: [PATCH 17/58] fix: keep all digits of the wall normal coordinates and
 accept an empty list

---
 src/library/natrium/solver/SolverConfiguration.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index e081acb..f75c1b9 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -2479,12 +2479,14 @@ public:
 		enter_subsection("Turbulence Statistics");
 		std::stringstream s;
 		try {
+			// keep all digits of the coordinates
+			s.precision(17);
 			size_t n = wall_normal_coordinates.size();
-			for (size_t i = 0; i < n - 1; i++) {
-				s << wall_normal_coordinates.at(i) << ",";
-			}
-			if (n != 0) {
-				s << wall_normal_coordinates.at(n - 1);
+			for (size_t i = 0; i < n; i++) {
+				if (i != 0) {
+					s << ",";
+				}
+				s << wall_normal_coordinates.at(i);
 			}
 			set("Wall normal coordinates", s.str());
 		} catch (std::exception& e) {
-- 
2.43.0


From d3e8606b1c94b3f1a8791d24630e45208393c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 18/58] fix: leave the configuration as it was when embedded
 parameters are rejected

---
 .../natrium/solver/SolverConfiguration.h      | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.h b/src/library/natrium/solver/SolverConfiguration.h
index f75c1b9..1db2a66 100644
--- a/src/library/natrium/solver/SolverConfiguration.h
+++ b/src/library/natrium/solver/SolverConfiguration.h
@@ -1978,12 +1978,29 @@ public:
 		enter_subsection("Advection");
 		enter_subsection("Embedded Parameters");
 
-		set("Coarsen parameter", coarsen_param);
-		set("Refinement parameter", refine_param);
-		set("Minimum CFL", min_delta);
-		set("Maximum CFL", max_delta);
-		set("Refinement tolerance", refine_tol);
-		set("Coarsen tolerance", coarsen_tol);
+		// the previous values are restored if one of the new ones is rejected
+		const std::string names[] = { "Coarsen parameter",
+				"Refinement parameter", "Minimum CFL", "Maximum CFL",
+				"Refinement tolerance", "Coarsen tolerance" };
+		const double values[] = { coarsen_param, refine_param, min_delta,
+				max_delta, refine_tol, coarsen_tol };
+		vector<string> previous;
+		try {
+			for (size_t i = 0; i < 6; i++) {
+				const string old = get(names[i]);
+				set(names[i], values[i]);
+				previous.push_back(old);
+			}
+		} catch (std::exception& e) {
+			std::stringstream msg;
+			msg << "Could not assign embedded parameters: " << e.what();
+			for (size_t i = 0; i < previous.size(); i++) {
+				set(names[i], previous.at(i));
+			}
+			leave_subsection();
+			leave_subsection();
+			throw ConfigurationException(msg.str());
+		}
 
 		leave_subsection();
 		leave_subsection();
-- 
2.43.0


From 7593a7752fade259dfd3005298a32608a3d8c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 19/58] fix: declare the parameters of a configuration that is
 read from an XML file

---
 src/library/natrium/solver/SolverConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/SolverConfiguration.cpp b/src/library/natrium/solver/SolverConfiguration.cpp
index 8ad2100..18b6a0b 100644
--- a/src/library/natrium/solver/SolverConfiguration.cpp
+++ b/src/library/natrium/solver/SolverConfiguration.cpp
@@ -294,8 +294,8 @@ SolverConfiguration::SolverConfiguration() {
 
 }
 
-SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) {
-	SolverConfiguration();
+SolverConfiguration::SolverConfiguration(const std::string& XMLfilename) :
+		SolverConfiguration() {
 	readFromXMLFile(XMLfilename);
 }
 
-- 
2.43.0


From 8bf746a794140508746ee03e9cbe2ccd0ce5fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:27 +0000
Subject: [PATCH 20/58] fix: reject unknown MRT relaxation times on the command
 line

---
 src/library/natrium/utilities/CommandLineParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index e01cc0d..5cdf0e5 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -486,7 +486,7 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			cfg.setMRTRelaxationTimes(RELAX_FULL);
 		} else if ("dellar-only-N" == relax) {
 			cfg.setMRTRelaxationTimes(DELLAR_RELAX_ONLY_N);
-		} else if ("dhumieres-paper") {
+		} else if ("dhumieres-paper" == relax) {
 			cfg.setMRTRelaxationTimes(RELAX_DHUMIERES_PAPER);
 		} else {
 			std::stringstream msg;
-- 
2.43.0


From b75c45589dcd5025a8a0e7f645a61ac6701b13d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:27 +0000
Subject: [PATCH 21/58] fix: reject an order of finite elements that
 contradicts standard-lbm-with

---
 src/library/natrium/utilities/CommandLineParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index 5cdf0e5..c92a62c 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -97,9 +97,11 @@ void CommandLineParser::applyToSolverConfiguration(SolverConfiguration& cfg) {
 			throw CommandLineParserException(
 					"Conflicting arguments: standard-lbm and cfl");
 		}
-		if (hasArgument("order-fe") and (getArgument<int>("order-fe") != 2)) {
+		if (hasArgument("order-fe")
+				and (getArgument<int>("order-fe")
+						!= getArgument<int>("standard-lbm-with"))) {
 			throw CommandLineParserException(
-					"Conflicting arguments: standard-lbm and order-fe != 2");
+					"Conflicting arguments: standard-lbm-with and another order-fe");
 		}
 		if (hasArgument("streaming")
 				and (getArgument<string>("streaming") != "sl")) {
-- 
2.43.0


From bc55f94a58bf4a461235067f0b61ca2211d9166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:27 +0000
Subject: [PATCH 22/58] fix: do not store command line arguments in a variable
 that is gone

---
 src/library/natrium/utilities/CommandLineParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/CommandLineParser.cpp b/src/library/natrium/utilities/CommandLineParser.cpp
index c92a62c..35f64fb 100755
--- a/src/library/natrium/utilities/CommandLineParser.cpp
+++ b/src/library/natrium/utilities/CommandLineParser.cpp
@@ -569,9 +569,8 @@ void CommandLineParser::setArgument(std::string name, std::string description,
 		type default_value) {
 	assert_clean();
 	try {
-		type opt;
 		m_description.add_options()(name.c_str(),
-				po::value<type>(&opt)->default_value(default_value),
+				po::value<type>()->default_value(default_value),
 				description.c_str());
 	} catch (po::error& e) {
 		std::stringstream msg;
-- 
2.43.0


From 97ceb74c03b78764e36114472c0b89e4d391d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 23/58] fix: add a boundary completely or not at all, and
 refuse duplicate identifiers

---
 .../problemdescription/BoundaryCollection.h   | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/library/natrium/problemdescription/BoundaryCollection.h b/src/library/natrium/problemdescription/BoundaryCollection.h
index c40c90c..41e0a2c 100644
--- a/src/library/natrium/problemdescription/BoundaryCollection.h
+++ b/src/library/natrium/problemdescription/BoundaryCollection.h
@@ -74,18 +74,16 @@ public:
 	 */
 	void addBoundary(boost::shared_ptr<PeriodicBoundary<dim> > boundary) {
 		assert (boundary->isPeriodic());
-			bool success1 =
-					m_boundaries.insert(
-							std::make_pair(boundary->getBoundaryIndicator1(),
-									boundary)).second;
-			bool success2 =
-					m_boundaries.insert(
-							std::make_pair(boundary->getBoundaryIndicator2(),
-									boundary)).second;
-			if ((not success1) or (not success2)) {
+			// check both indicators before changing anything
+			if (hasID(boundary->getBoundaryIndicator1())
+					or hasID(boundary->getBoundaryIndicator2())) {
 				throw BoundaryCollectionException(
 						"Boundary could not be inserted. Boundary indicators must be unique.");
 			}
+			m_boundaries.insert(
+					std::make_pair(boundary->getBoundaryIndicator1(), boundary));
+			m_boundaries.insert(
+					std::make_pair(boundary->getBoundaryIndicator2(), boundary));
 			m_periodicBoundaries.insert(
 					std::make_pair(boundary->getBoundaryIndicator1(), boundary));
 			m_periodicBoundaries.insert(
@@ -94,8 +92,16 @@ public:
 
 	}
 
+	/**
+	 * @short Add a non-periodic boundary to the flow definition.
+	 * @throws BoundaryCollectionError, if the boundary indicator is already in use
+	 */
 	void addBoundary(boost::shared_ptr<Boundary<dim> > boundary) {
 		assert (not boundary->isPeriodic()) ;
+		if (hasID(boundary->getBoundaryIndicator())) {
+			throw BoundaryCollectionException(
+					"Boundary could not be inserted. Boundary indicators must be unique.");
+		}
 		m_boundaries.insert(std::make_pair(boundary->getBoundaryIndicator(), boundary));
 	}
 
-- 
2.43.0


From 118cab5ebd43d1a7df04d8f6b7f64db8670387ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 24/58] fix: look for periodic neighbours by face, not by
 boundary identifier, in the SEDG sparsity pattern

---
 src/library/natrium/utilities/DealiiExtensions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/library/natrium/utilities/DealiiExtensions.cpp b/src/library/natrium/utilities/DealiiExtensions.cpp
index ee7eb72..9ab2899 100644
--- a/src/library/natrium/utilities/DealiiExtensions.cpp
+++ b/src/library/natrium/utilities/DealiiExtensions.cpp
@@ -122,8 +122,7 @@ void make_sparser_flux_sparsity_pattern(const DH &dof,
 							boundaries.getPeriodicBoundaries().begin();
 							periodic != boundaries.getPeriodicBoundaries().end();
 							periodic++) {
-						if (periodic->second->isFaceInBoundary(cell,
-								this_face->boundary_id())) {
+						if (periodic->second->isFaceInBoundary(cell, face)) {
 							neighbor_face =
 									periodic->second->getOppositeCellAtPeriodicBoundary(
 											cell, neighbor);
-- 
2.43.0


From 2ffcc39177db529e1f4fa2200702e93ed7fc2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 25/58] fix: pair periodic faces by face number where a cell
 touches several periodic sides

---
 src/library/natrium/advection/SEDGMinLee.cpp  |  2 +-
 .../natrium/advection/SemiLagrangian.cpp      |  8 +++----
 .../natrium/boundaries/PeriodicBoundary.cpp   | 22 +++++++++++++++----
 .../natrium/boundaries/PeriodicBoundary.h     |  9 ++++++--
 .../natrium/utilities/DealiiExtensions.cpp    |  2 +-
 5 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 5d38864..f171301 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -378,7 +378,7 @@ void SEDGMinLee<dim>::assembleAndDistributeLocalFaceMatrices(size_t alpha,
 				typename dealii::DoFHandler<dim>::cell_iterator neighborCell;
 				size_t opposite_face =
 						periodicBoundary->getOppositeCellAtPeriodicBoundary(
-								cell, neighborCell);
+								cell, neighborCell, j);
 				assembleAndDistributeInternalFace(alpha, cell, j, neighborCell,
 						opposite_face, fe_face_values, fe_subface_values,
 						fe_neighbor_face_values, inverse_local_mass_matrix);
diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 9be474a..fd0b732 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -342,14 +342,14 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 										el.currentCell, face_id));
 						el.currentPoint =
 								periodicBoundary->coordinatesAcrossPeriodicBoundary(
-										p_boundary, el.currentCell);
+										p_boundary, el.currentCell, face_id);
 						el.departurePoint =
 								periodicBoundary->coordinatesAcrossPeriodicBoundary(
-										el.departurePoint, el.currentCell);
+										el.departurePoint, el.currentCell, face_id);
 						const typename dealii::DoFHandler<dim>::active_cell_iterator h =
 								el.currentCell;
 						periodicBoundary->getOppositeCellAtPeriodicBoundary(h,
-								el.currentCell);
+								el.currentCell, face_id);
 
 					} else /* if is not periodic */{
 						// ================================================================================================
@@ -770,7 +770,7 @@ typename dealii::DoFHandler<dim>::cell_iterator SemiLagrangian<dim>::getNeighbor
 			assert(periodicBoundary->isFaceInBoundary(cell, i));
 			typename dealii::DoFHandler<dim>::cell_iterator neighborCell;
 			periodicBoundary->getOppositeCellAtPeriodicBoundary(cell,
-					neighborCell);
+					neighborCell, i);
 			return neighborCell;
 		} else {
 			return cell->get_dof_handler().end();
diff --git a/src/library/natrium/boundaries/PeriodicBoundary.cpp b/src/library/natrium/boundaries/PeriodicBoundary.cpp
index b4bd44e..0db921a 100644
--- a/src/library/natrium/boundaries/PeriodicBoundary.cpp
+++ b/src/library/natrium/boundaries/PeriodicBoundary.cpp
@@ -147,9 +147,22 @@ template<size_t dim> void PeriodicBoundary<dim>::checkCellMap() {
 	}
 }
 
+/// is the given face of the given cell the first one of the pair?
+/// (The face only matters if the cell is at both sides of the boundary.)
+template<size_t dim>
+static bool isFirstSide(const FacePair<dim>& face_pair,
+		const typename dealii::DoFHandler<dim>::active_cell_iterator & cell,
+		int face_id) {
+	if ((face_pair.cell[0] == cell) and (face_pair.cell[1] == cell)) {
+		return face_id != int(face_pair.face_idx[1]);
+	}
+	return face_pair.cell[0] == cell;
+}
+
 template<size_t dim> size_t PeriodicBoundary<dim>::getOppositeCellAtPeriodicBoundary(
 		const typename dealii::DoFHandler<dim>::active_cell_iterator & cell,
-		typename dealii::DoFHandler<dim>::cell_iterator & neighborCell) const {
+		typename dealii::DoFHandler<dim>::cell_iterator & neighborCell,
+		int face_id) const {
 
 	if (m_cells.size() == 0) {
 		throw PeriodicBoundaryNotPossible(
@@ -166,7 +179,7 @@ template<size_t dim> size_t PeriodicBoundary<dim>::getOppositeCellAtPeriodicBoun
 	neighborCell = m_doFHandler->begin_active();
 	// return cell and face id
 	FacePair<dim> face_pair = m_cells.at(cell);
-	if (face_pair.cell[0] == cell) {
+	if (isFirstSide<dim>(face_pair, cell, face_id)) {
 		neighborCell = face_pair.cell[1];
 		return face_pair.face_idx[1];
 	} else {
@@ -183,7 +196,8 @@ template<size_t dim> size_t PeriodicBoundary<dim>::getOppositeCellAtPeriodicBoun
 template<size_t dim>
 dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 		const dealii::Point<dim>& p,
-		const typename dealii::DoFHandler<dim>::active_cell_iterator& cell) {
+		const typename dealii::DoFHandler<dim>::active_cell_iterator& cell,
+		int face_id) {
 	//TODO should be inlined
 	assert(m_doFHandler != NULL);
 
@@ -291,7 +305,7 @@ dealii::Point<dim> PeriodicBoundary<dim>::coordinatesAcrossPeriodicBoundary(
 
 	// transform point
 	dealii::Point < dim > result;
-	if (face_pair.cell[0] == cell) {
+	if (isFirstSide<dim>(face_pair, cell, face_id)) {
 		numeric_matrix inv(mdim);
 		inv.invert(matrix);
 		for (size_t i = 0; i < dim; i++) {
diff --git a/src/library/natrium/boundaries/PeriodicBoundary.h b/src/library/natrium/boundaries/PeriodicBoundary.h
index 5c94f9c..07640eb 100644
--- a/src/library/natrium/boundaries/PeriodicBoundary.h
+++ b/src/library/natrium/boundaries/PeriodicBoundary.h
@@ -134,12 +134,15 @@ public:
 	 *
 	 * @param[in] cellID a cell ID
 	 * @param[out] neighborCell the desired neighbor cell
+	 * @param[in] face_id local number of the face through which the cell is left; only required,
+	 *                    if the cell touches both sides of the boundary (domains of one cell's width)
 	 *
 	 * @return local face number of cell1, denoting the respective cell number
 	 */
 	size_t getOppositeCellAtPeriodicBoundary(
 			const typename dealii::DoFHandler<dim>::active_cell_iterator & cell,
-			typename dealii::DoFHandler<dim>::cell_iterator & neighborCell) const;
+			typename dealii::DoFHandler<dim>::cell_iterator & neighborCell,
+			int face_id = -1) const;
 
 	/**
 	 * @short test if a given face belongs to this boundary
@@ -175,10 +178,12 @@ public:
 
 	/**
 	 * Transform a point into its equivalent across the periodic boundary
+	 * @param[in] face_id see getOppositeCellAtPeriodicBoundary
 	 */
 	dealii::Point<dim> coordinatesAcrossPeriodicBoundary(
 			const dealii::Point<dim>& p,
-			const typename dealii::DoFHandler<dim>::active_cell_iterator& cell);
+			const typename dealii::DoFHandler<dim>::active_cell_iterator& cell,
+			int face_id = -1);
 	//TODO should be inlined
 
 
diff --git a/src/library/natrium/utilities/DealiiExtensions.cpp b/src/library/natrium/utilities/DealiiExtensions.cpp
index 9ab2899..daf23b6 100644
--- a/src/library/natrium/utilities/DealiiExtensions.cpp
+++ b/src/library/natrium/utilities/DealiiExtensions.cpp
@@ -125,7 +125,7 @@ void make_sparser_flux_sparsity_pattern(const DH &dof,
 						if (periodic->second->isFaceInBoundary(cell, face)) {
 							neighbor_face =
 									periodic->second->getOppositeCellAtPeriodicBoundary(
-											cell, neighbor);
+											cell, neighbor, face);
 							// if the face is not really at the boundary: do not consider cell
 							/*test_face =
 							 periodic->second->getOppositeCellAtPeriodicBoundary(
-- 
2.43.0


From 1ee35836a754e5577405b0d5826c79670987b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 26/58] fix: refuse indices beyond the set of populations and
 vectors of the wrong number

---
 .../natrium/solver/DistributionFunctions.cpp  | 24 ++++++++++++-------
 .../natrium/solver/DistributionFunctions.h    |  7 ++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/library/natrium/solver/DistributionFunctions.cpp b/src/library/natrium/solver/DistributionFunctions.cpp
index 9a858fb..a6be792 100755
--- a/src/library/natrium/solver/DistributionFunctions.cpp
+++ b/src/library/natrium/solver/DistributionFunctions.cpp
@@ -34,9 +34,15 @@ DistributionFunctions::DistributionFunctions(
 	updateGhosted();
 }
 
+void DistributionFunctions::checkIndex(size_t i) const {
+	if (i >= m_Q) {
+		throw DistributionFunctionsException(
+				"The index of a distribution function must be smaller than the number of discrete velocities.");
+	}
+}
+
 distributed_vector& DistributionFunctions::at(size_t i) {
-	assert(m_Q > 0);
-	assert(i < m_Q);
+	checkIndex(i);
 	if (i == 0) {
 		return m_f0;
 	} else {
@@ -45,8 +51,7 @@ distributed_vector& DistributionFunctions::at(size_t i) {
 }
 
 const distributed_vector& DistributionFunctions::at(size_t i) const {
-	assert(m_Q > 0);
-	assert(i < m_Q);
+	checkIndex(i);
 	if (i == 0) {
 		return m_f0;
 	} else {
@@ -55,8 +60,7 @@ const distributed_vector& DistributionFunctions::at(size_t i) const {
 }
 
 distributed_vector& DistributionFunctions::atGhosted(size_t i) {
-	assert(m_Q > 0);
-	assert(i < m_Q);
+	checkIndex(i);
 	if (m_dg) {
 		return at(i);
 	} else {
@@ -73,8 +77,7 @@ distributed_vector& DistributionFunctions::atGhosted(size_t i) {
 }
 
 const distributed_vector& DistributionFunctions::atGhosted(size_t i) const {
-	assert(m_Q > 0);
-	assert(i < m_Q);
+	checkIndex(i);
 	if (m_dg) {
 		return at(i);
 	} else {
@@ -146,7 +149,10 @@ void DistributionFunctions::compress(
 }
 
 void DistributionFunctions::operator=(const DistributionFunctions& other) {
-	assert(other.getQ() == m_Q);
+	if (other.getQ() != m_Q) {
+		throw DistributionFunctionsException(
+				"Distribution functions can only be assigned to others of the same number.");
+	}
 	m_f0 = other.getF0();
 	m_fStream = other.getFStream();
 	updateGhosted();
diff --git a/src/library/natrium/solver/DistributionFunctions.h b/src/library/natrium/solver/DistributionFunctions.h
index 6b074ab..8c59862 100644
--- a/src/library/natrium/solver/DistributionFunctions.h
+++ b/src/library/natrium/solver/DistributionFunctions.h
@@ -67,6 +67,9 @@ private:
 	/// are in fact locally owned on the current MPI process
 	bool m_dg;
 
+	/// throws an exception, if there is no distribution function with this index
+	void checkIndex(size_t i) const;
+
 public:
 	/**
 	 * @short empty constructor. Construction is done through reinit.
@@ -205,6 +208,10 @@ public:
 	 * @short FStream denotes the block vector containing the vectors \f$ f_1, ..., f_Q \f$
 	 */
 	void setFStream(const distributed_block_vector& fStream) {
+		if (fStream.n_blocks() + 1 != m_Q) {
+			throw DistributionFunctionsException(
+					"The number of blocks does not match the number of discrete velocities.");
+		}
 		m_fStream = fStream;
 		if (not m_dg) {
 			m_fStreamGhosted = fStream;
-- 
2.43.0


From 11919e16caf160f56de1ce83fe4eec3186e776ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 27/58] fix: keep all boundary hits of a cell, each at its own
 point

---
 src/library/natrium/boundaries/BoundaryHit.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index cebe408..09056c0 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -98,7 +98,13 @@ template<size_t dim>
 struct PointComp {
 	bool operator()(const dealii::Point<dim>& lhs,
 			const dealii::Point<dim>& rhs) const {
-		return lhs.distance(rhs) < 1e-10;
+		// lexicographic order (std::map needs a strict weak ordering); points closer than 1e-10 are equal
+		for (size_t i = 0; i < dim; i++) {
+			if (fabs(lhs[i] - rhs[i]) >= 1e-10) {
+				return lhs[i] < rhs[i];
+			}
+		}
+		return false;
 	}
 };
 
-- 
2.43.0


From bb4711bf122b4b9c99ad5ba89483ec80cdab7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:47 +0000
Subject: [PATCH 28/58] fix: evaluate boundary velocities at the point in the
 domain, not in the unit cell

---
 src/library/natrium/boundaries/FEBoundaryValues.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/FEBoundaryValues.h b/src/library/natrium/boundaries/FEBoundaryValues.h
index 415c4dd..fe65c0e 100755
--- a/src/library/natrium/boundaries/FEBoundaryValues.h
+++ b/src/library/natrium/boundaries/FEBoundaryValues.h
@@ -226,7 +226,7 @@ public:
 	}
 
 	const dealii::Point<dim>& getPoint(size_t q_point){
-		return m_feValues.get_quadrature().point(q_point);
+		return m_feValues.quadrature_point(q_point);
 	}
 
 	const GlobalBoundaryData& getData() const {
@@ -236,7 +236,8 @@ public:
 private:
 
 	dealii::UpdateFlags getFEValuesFlags(BoundaryFlags& flags) {
-		dealii::UpdateFlags result = dealii::update_values;
+		dealii::UpdateFlags result = dealii::update_values
+				| dealii::update_quadrature_points;
 		if (boundary_drho_dt & flags) {
 			result |= dealii::update_gradients;
 		}
-- 
2.43.0


From 7a5667d3ffac5c4046d2d40c117a3ef51bad1ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 29/58] fix: evaluate time-dependent boundary velocities when
 the boundary is hit, not one step earlier

---
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.cpp   | 4 ++--
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.h     | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index e6335e4..623c327 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -27,7 +27,7 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
 		const DistributionFunctions& f_old, double t) {
 
     GlobalBoundaryData g_data(f_old, f_new, m_stencil, 0.1, m_timeStep);
-    operate(g_data,t);
+    operate(g_data,t + m_timeStep);
 }
 
 template<size_t dim>
@@ -35,7 +35,7 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
                                                const DistributionFunctions& f_old, DistributionFunctions& g, double t) {
 
     GlobalBoundaryData g_data(f_old, f_new, g, m_stencil, 0.1, m_timeStep);
-    operate(g_data,t);
+    operate(g_data,t + m_timeStep);
 }
 
 
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index d88ce1c..1881276 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -78,9 +78,14 @@ public:
 	}
 	void addHit(const LagrangianPathTracker<dim>& tracker, size_t boundary_id);
 
+	/**
+	 * @short apply the boundary conditions to the distributions f_new at t + dt
+	 * @param t the time of f_old, i.e. the beginning of the time step
+	 */
 	void apply(DistributionFunctions& f_new, const DistributionFunctions& f_old, double t);
     void apply(DistributionFunctions& f_new, const DistributionFunctions& f_old, DistributionFunctions& g, double t);
-    void operate(GlobalBoundaryData g_data, double t);
+    /// t_new is the end of the time step; the boundaries look at the times t_new - dt_hit
+    void operate(GlobalBoundaryData g_data, double t_new);
 
     void applyToG(DistributionFunctions& f, DistributionFunctions& g, double t, const double gamma);
 
-- 
2.43.0


From 60514366093e2d094dafb4ed3a89da9169df6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 30/58] fix: follow semi-Lagrangian paths from coarse into
 refined cells

---
 src/library/natrium/advection/SemiLagrangian.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index fd0b732..43ce16d 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -419,9 +419,16 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					// Interior faces
 					el.currentPoint = p_boundary;
 					if (el.currentCell->neighbor(face_id)->has_children()) {
-						el.currentCell =
-								el.currentCell->child(child_id)->neighbor(
-										face_id);
+						// the current cell is active; find the part of the face that is crossed
+						size_t subface = 0;
+						while (subface + 1 < dealii::GeometryInfo<dim>::max_children_per_face
+								and dealii::GeometryInfo<dim>::child_cell_on_face(
+										dealii::RefinementCase<dim>::isotropic_refinement,
+										face_id, subface) != child_id) {
+							subface++;
+						}
+						el.currentCell = el.currentCell->neighbor_child_on_subface(
+								face_id, subface);
 					} else {
 						el.currentCell = el.currentCell->neighbor(face_id);
 					}
-- 
2.43.0


From fe975cf27427c13c325ce15cf302ddef7005bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 31/58] fix: do-nothing boundaries that are reached from
 another cell

---
 src/library/natrium/advection/SemiLagrangian.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 43ce16d..3dfc747 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -389,9 +389,10 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
                         else if (is_do_nothing_bb(Base::getBoundaries()->getBoundary(bi)->getBoundaryName())) {
 
                             // Go back to start and follow the opposite direction to find the departure point
-                            el.currentPoint = el.departurePoint - minus_dtealpha.at(el.currentDirection);
-
-                            el.departurePoint = el.currentPoint - minus_dtealpha.at(el.currentDirection);
+                            // (starting from the boundary, as the current cell may not contain the start)
+                            el.currentPoint = p_boundary;
+                            el.departurePoint = el.departurePoint - minus_dtealpha.at(el.currentDirection)
+                                    - minus_dtealpha.at(el.currentDirection);
                             el.currentDirection =
                                     Base::m_stencil->getIndexOfOppositeDirection(
                                             el.currentDirection);
-- 
2.43.0


From b2de221ec2ecdfb83e9203d758acd7d397b7f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 32/58] fix: reassembling semi-Lagrangian streaming does not
 add to the previous matrix and hits

---
 src/library/natrium/advection/SemiLagrangian.cpp             | 3 +++
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.h       | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 3dfc747..8c728f1 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -81,6 +81,9 @@ void SemiLagrangian<dim>::reassemble() {
 	assert(Base::m_systemMatrix.n() != 0);
 	assert(Base::m_systemMatrix.m() != 0);
 
+	// start from scratch, also when called repeatedly
+	Base::m_systemMatrix = 0;
+	m_boundaryHandler.clear();
 	fillSparseObject(false); // "false" says that you want to fill the system matrix, not the sparsity pattern
 
 	Base::m_systemMatrix.compress(dealii::VectorOperation::add);
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
index 1881276..cbb16bc 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.h
@@ -96,6 +96,11 @@ public:
 	 pout << "#Hits at support points: " << endl;
 	 }*/
 
+	/// forget all hits
+	void clear() {
+		m_hitList.clear();
+	}
+
 	double getTimeStep() const {
 		return m_timeStep;
 	}
-- 
2.43.0


From 98bac535dfc7cacaa2e474e1d9685f5a868eaee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:49 +0000
Subject: [PATCH 33/58] fix: sign of the wall velocity where a path meets walls
 twice

---
 src/library/natrium/advection/SemiLagrangianTools.h      | 9 +++++----
 src/library/natrium/boundaries/BoundaryHit.h             | 4 ++++
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 3 +++
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangianTools.h b/src/library/natrium/advection/SemiLagrangianTools.h
index 9170211..ae48f0a 100755
--- a/src/library/natrium/advection/SemiLagrangianTools.h
+++ b/src/library/natrium/advection/SemiLagrangianTools.h
@@ -36,12 +36,13 @@ public:
 struct LagrangianPathDestination {
 	size_t index;
 	size_t direction; // in case of a boundary: the outgoing direction
+	bool reversed; // in case of a boundary: the path has been reversed before it hit the boundary
 	LagrangianPathDestination(size_t i, size_t alpha) :
-			index(i), direction(alpha) {
-	}
-	LagrangianPathDestination(const LagrangianPathDestination& other) :
-			index(other.index), direction(other.direction) {
+			index(i), direction(alpha), reversed(false) {
 	}
+	LagrangianPathDestination(const LagrangianPathDestination& other) = default;
+	LagrangianPathDestination& operator=(
+			const LagrangianPathDestination& other) = default;
 };
 
 template<size_t dim>
diff --git a/src/library/natrium/boundaries/BoundaryHit.h b/src/library/natrium/boundaries/BoundaryHit.h
index 09056c0..0aa9e6a 100755
--- a/src/library/natrium/boundaries/BoundaryHit.h
+++ b/src/library/natrium/boundaries/BoundaryHit.h
@@ -47,6 +47,10 @@ public:
 					<< "dtHit: 		" << dtHit << endl
 					 << "-----------------" << endl;
 		}
+		// bounce back has turned the path around already: an even number of times means that
+		// the outgoing direction at this boundary is opposite to the direction at the destination
+		destination.reversed = (tracker.currentDirection
+				== tracker.destination.direction);
 		currentPoint = tracker.currentPoint;
 		boundaryID = boundary_id;
 		currentCell = tracker.currentCell;
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 07174ae..9819a97 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -179,6 +179,9 @@ void VelocityNeqBounceBack<dim>::calculateBoundaryValues(
 
 	double to_add = 2 * stencil.getWeight(destination.direction)
 			* rho * exu / stencil.getSpeedOfSoundSquare();
+	if (destination.reversed) {
+		to_add = -to_add;
+	}
 
 	/*
 	 * equilibrium for testing:
-- 
2.43.0


From a8c1b35d32051a797230b41c636afaad636191af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 34/58] fix: paths caught between two walls at a corner leave
 the population unchanged

---
 src/library/natrium/advection/SemiLagrangian.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SemiLagrangian.cpp b/src/library/natrium/advection/SemiLagrangian.cpp
index 8c728f1..9685872 100755
--- a/src/library/natrium/advection/SemiLagrangian.cpp
+++ b/src/library/natrium/advection/SemiLagrangian.cpp
@@ -206,6 +206,8 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 			// initialize
 			found_in_cell.clear();
 			std::queue<LagrangianPathTracker<dim> > not_found;
+			// boundary hits of the path that is being followed
+			std::vector<std::pair<LagrangianPathTracker<dim>, size_t> > path_hits;
 
 			// get global degrees of freedom
 			cell->get_dof_indices(local_dof_indices);
@@ -269,6 +271,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 								el.destination.index, el.destination.index,
 								1.0);
 					}
+					path_hits.clear();
 					not_found.pop();
 					continue;
 				}
@@ -329,6 +332,10 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 					} else {
 						it->second.push_back(el);
 					}
+					for (size_t i = 0; i < path_hits.size(); i++) {
+						m_boundaryHandler.addHit(path_hits[i].first, path_hits[i].second);
+					}
+					path_hits.clear();
 					not_found.pop();
 
 					// ================================================================================================
@@ -382,7 +389,7 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 												* distance / vel_direction;
 							}
 							if (not sparsity_pattern) {
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
 							}
 
 						}
@@ -410,7 +417,11 @@ void SemiLagrangian<dim>::fillSparseObject(bool sparsity_pattern, size_t row_ind
 							// ================================================================================================
 							if (not sparsity_pattern) {
 								el.currentPoint = p_boundary;
-								m_boundaryHandler.addHit(el, bi);
+								path_hits.push_back(std::make_pair(el, bi));
+								for (size_t i = 0; i < path_hits.size(); i++) {
+									m_boundaryHandler.addHit(path_hits[i].first, path_hits[i].second);
+								}
+								path_hits.clear();
 							}
 							not_found.pop();
 
-- 
2.43.0


From a6ee291549d653100cd1a4ea65f64ff0086a5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 35/58] fix: central fluxes take the difference to the outer
 value, not the sum

---
 src/library/natrium/advection/SEDGMinLee.cpp             | 2 +-
 src/library/natrium/boundaries/VelocityNeqBounceBack.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index f171301..8f3dc93 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -514,7 +514,7 @@ void SEDGMinLee<dim>::assembleAndDistributeInternalFace(size_t alpha,
 
 		if (m_useCentralFlux) {
 			cell_entry = 0.5 * prefactor;
-			neighbor_entry = 0.5 * prefactor;
+			neighbor_entry = -0.5 * prefactor;
 
 		} else if (exn < 0) { // otherwise: no contributions
 			cell_entry = prefactor;
diff --git a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
index 9819a97..a51606b 100755
--- a/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
+++ b/src/library/natrium/boundaries/VelocityNeqBounceBack.cpp
@@ -98,7 +98,8 @@ template<size_t dim> void VelocityNeqBounceBack<dim>::assembleBoundary(
 
 		if (useCentralFlux) {
 			cellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
-			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = 0.5 * prefactor;
+			oppositeDirectionCellFaceMatrix(thisDoF, thisDoF) = -0.5
+					* prefactor;
 			cellFaceVector(thisDoF) = -prefactor * stencil.getWeight(alpha)
 					* density * exu / stencil.getSpeedOfSoundSquare();
 		} else if (exn < 0) {
-- 
2.43.0


From a01936e0e170534b681bef25311a88bf771a7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 36/58] fix: reassembling SEDG does not add to the previous
 matrix

---
 src/library/natrium/advection/SEDGMinLee.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 8f3dc93..9749f7e 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -96,6 +96,11 @@ void SEDGMinLee<dim>::reassemble() {
 	distributed_sparse_block_matrix& system_matrix = Base::m_systemMatrix;
 	assert(system_matrix.n() != 0);
 	assert(system_matrix.m() != 0);
+
+// the assembly adds to the entries
+	system_matrix = 0;
+	m_systemVector = 0;
+
 /////////////////////////////////
 // Initialize Finite Element ////
 /////////////////////////////////
-- 
2.43.0


From 7b767698851114fad22acf90446f937b983f3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 37/58] fix: SEDG refuses meshes with hanging nodes, whose
 faces it couples wrongly

---
 src/library/natrium/advection/SEDGMinLee.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index 9749f7e..f408e17 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -406,6 +406,10 @@ void SEDGMinLee<dim>::assembleAndDistributeLocalFaceMatrices(size_t alpha,
 // Internal faces
 			typename DoFHandler<dim>::cell_iterator neighbor = cell->neighbor(
 					j);
+			if (neighbor->has_children() or cell->neighbor_is_coarser(j)) {
+				throw NotImplementedException("The SEDG solver does not support hanging nodes. "
+						"Use a globally refined mesh or semi-Lagrangian streaming.");
+			}
 			assembleAndDistributeInternalFace(alpha, cell, j, neighbor,
 					cell->neighbor_face_no(j), fe_face_values,
 					fe_subface_values, fe_neighbor_face_values,
-- 
2.43.0


From a77a1d9328b7b912172ad866a1c636e3f1123726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:20 +0000
Subject: [PATCH 38/58] fix: deal.II time integrators advance the solution
 again, with the schemes they name

---
 .../natrium/timeintegration/DealIIWrapper.cpp | 60 +++++++++++++++----
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 6e831fa..8ee706a 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -610,8 +610,7 @@ block_vector natrium::DealIIWrapper<sparse_block_matrix, block_vector>::evaluate
 template<class MATRIX, class VECTOR>
 double natrium::DealIIWrapper<MATRIX, VECTOR>::step(VECTOR& vector,
 		const MATRIX& systemMatrix, VECTOR& systemVector, double t,
-		double dt) { /*
-TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
+		double dt) {
 
 	if ((0.0 != dt) and dt != this->getTimeStepSize()) {
 		this->setTimeStepSize(dt);
@@ -626,15 +625,52 @@ TODO BRUTE FORCE KILLED SEDG HERE DOMINIK WILDE 2020
 
 	m_systemMatrix = &systemMatrix;
 	m_systemVector = &systemVector;
+	if (m_dealIIRKEmbedded) {
+		// the vector may have changed since the last step (collision);
+		// do not take the last stage as the first one
+		m_dealIIRKEmbedded->free_memory();
+	}
 	return m_dealIIRKStepper->evolve_one_time_step(
-			dealii::std_cxx11::bind(&DealIIWrapper<MATRIX, VECTOR>::evaluateF,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2),
-			dealii::std_cxx11::bind(
-					&DealIIWrapper<MATRIX, VECTOR>::evaluateIdMinusTauJInverse,
-					this, dealii::std_cxx11::_1, dealii::std_cxx11::_2,
-					dealii::std_cxx11::_3), t, dt, vector);
+			[this](const double t, const VECTOR& f) {
+				return this->evaluateF(t, f);
+			},
+			[this](const double t, const double tau, const VECTOR& f) {
+				return this->evaluateIdMinusTauJInverse(t, tau, f);
+			}, t, dt, vector);
+}
 
-					*/}
+/// deal.II's name of a scheme (the numbers differ between versions of deal.II)
+static dealii::TimeStepping::runge_kutta_method dealIIMethod(
+		const DealIntegratorName rkScheme) {
+	switch (rkScheme) {
+	case FORWARD_EULER:
+		return dealii::TimeStepping::FORWARD_EULER;
+	case RK_THIRD_ORDER:
+		return dealii::TimeStepping::RK_THIRD_ORDER;
+	case RK_CLASSIC_FOURTH_ORDER:
+		return dealii::TimeStepping::RK_CLASSIC_FOURTH_ORDER;
+	case BACKWARD_EULER:
+		return dealii::TimeStepping::BACKWARD_EULER;
+	case IMPLICIT_MIDPOINT:
+		return dealii::TimeStepping::IMPLICIT_MIDPOINT;
+	case CRANK_NICOLSON:
+		return dealii::TimeStepping::CRANK_NICOLSON;
+	case SDIRK_TWO_STAGES:
+		return dealii::TimeStepping::SDIRK_TWO_STAGES;
+	case HEUN_EULER:
+		return dealii::TimeStepping::HEUN_EULER;
+	case BOGACKI_SHAMPINE:
+		return dealii::TimeStepping::BOGACKI_SHAMPINE;
+	case DOPRI:
+		return dealii::TimeStepping::DOPRI;
+	case FEHLBERG:
+		return dealii::TimeStepping::FEHLBERG;
+	case CASH_KARP:
+		return dealii::TimeStepping::CASH_KARP;
+	default:
+		return dealii::TimeStepping::invalid;
+	}
+}
 
 template<class MATRIX, class VECTOR>
 natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
@@ -644,8 +680,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = dealIIMethod(rkScheme);
 	if (rkScheme < 3) {
 		m_dealIIRKStepper = boost::make_shared<
 				dealii::TimeStepping::ExplicitRungeKutta<VECTOR> >(rk);
@@ -669,8 +704,7 @@ natrium::DealIIWrapper<MATRIX, VECTOR>::DealIIWrapper(const double timeStepSize,
 	m_solver = linearSolver;
 	assert(rkScheme < 12);
 	assert(NONE != rkScheme);
-	dealii::TimeStepping::runge_kutta_method rk =
-			static_cast<dealii::TimeStepping::runge_kutta_method>((int) rkScheme);
+	dealii::TimeStepping::runge_kutta_method rk = dealIIMethod(rkScheme);
 	m_dealIIRKEmbedded = boost::make_shared<
 			dealii::TimeStepping::EmbeddedExplicitRungeKutta<VECTOR> >(rk,
 			coarsen_param, refine_param, min_delta, max_delta, refine_tol,
-- 
2.43.0


From 91ae45288d8463e6b3819415c94be99954ea8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 39/58] fix: reinitVector keeps the block structure of block
 vectors

---
 src/library/natrium/utilities/SemiParallelMatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/utilities/SemiParallelMatrix.cpp b/src/library/natrium/utilities/SemiParallelMatrix.cpp
index 7039915..b18d595 100755
--- a/src/library/natrium/utilities/SemiParallelMatrix.cpp
+++ b/src/library/natrium/utilities/SemiParallelMatrix.cpp
@@ -34,7 +34,7 @@ template<>
 void reinitVector<block_vector>(block_vector& dst,
 		const block_vector& src) {
 	if (dst.size() != src.size()) {
-		dst.reinit(src.size(), true);
+		dst.reinit(src, true);
 	}
 }
 
-- 
2.43.0


From 9d2013742ead8354f31f09099d3386df6d0a7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:04 +0000
Subject: [PATCH 40/58] fix: exponential integrator: steady states and singular
 systems give no NaN

---
 .../ExponentialTimeIntegrator.cpp             | 51 ++++++++++---------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
index 85fb499..00ac755 100644
--- a/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
+++ b/src/library/natrium/timeintegration/ExponentialTimeIntegrator.cpp
@@ -111,6 +111,10 @@ template<class MATRIX, class VECTOR> double ExponentialTimeIntegrator<MATRIX,
 	m_w += systemVector;		// w = A*f + u
 
 	double beta = m_w.l2_norm();
+	if (beta == 0) {
+		// steady state
+		return t + dt;
+	}
 
 	// the next two lines set m_V(i,0) =  m_w(i) / beta
 	// in a way that takes care about the individual blocks of block vectors
@@ -249,11 +253,11 @@ template<class MATRIX, class VECTOR> numeric_matrix ExponentialTimeIntegrator<
 
 template<class MATRIX, class VECTOR> numeric_matrix ExponentialTimeIntegrator<
 		MATRIX, VECTOR>::padeApproximation(numeric_matrix base) {
-	numeric_matrix exponential(arnoldiSize);  // Builds the identity matrix
-	numeric_matrix factor(arnoldiSize);
-	numeric_matrix aid(arnoldiSize);
-	numeric_matrix N(arnoldiSize);
-	numeric_matrix D(arnoldiSize);
+	numeric_matrix exponential(base.m());
+	numeric_matrix factor(dealii::IdentityMatrix(base.m())); // Builds the identity matrix
+	numeric_matrix aid(base.m());
+	numeric_matrix N(base.m());
+	numeric_matrix D(base.m());
 	size_t m = taylorSteps;
 
 	double s = base.linfty_norm();
@@ -268,7 +272,6 @@ template<class MATRIX, class VECTOR> numeric_matrix ExponentialTimeIntegrator<
 
 	double fact = 1.0;
 
-	factor.copy_from(m_identityMatrix);
 	N = factor;
 	D = factor;
 
@@ -311,25 +314,23 @@ template<class MATRIX, class VECTOR> void ExponentialTimeIntegrator<MATRIX,
 		VECTOR>::phiFunction(const numeric_matrix &Hm, numeric_matrix &phiOne,
 		numeric_matrix &phiTwo) // Builds phiOne and phiTwo
 		{
-	numeric_matrix exponential(arnoldiSize);
-	numeric_matrix inverse(arnoldiSize);
-	phiOne = Hm;
-	phiOne *= this->getTimeStepSize();
-
-	exponential = padeApproximation(phiOne);
-	exponential.add(makeIdentityMatrix(), (-1));
-
-	phiOne.gauss_jordan();
-
-	inverse = phiOne;
-
-	exponential.mmult(phiOne, inverse);
-
-	phiTwo = phiOne;
-	phiTwo.add(makeIdentityMatrix(), (-1));
-
-	exponential = phiTwo;
-	exponential.mmult(phiTwo, inverse);
+	// The upper blocks of exp([H I 0; 0 0 I; 0 0 0]) are exp(H), phiOne(H) and phiTwo(H).
+	// In contrast to phiOne = (exp(H) - 1) / H, this holds for singular H, too.
+	numeric_matrix extended(3 * arnoldiSize);
+	for (size_t i = 0; i < arnoldiSize; i++) {
+		for (size_t j = 0; j < arnoldiSize; j++) {
+			extended(i, j) = Hm(i, j) * this->getTimeStepSize();
+		}
+		extended(i, arnoldiSize + i) = 1;
+		extended(arnoldiSize + i, 2 * arnoldiSize + i) = 1;
+	}
+	extended = padeApproximation(extended);
+	for (size_t i = 0; i < arnoldiSize; i++) {
+		for (size_t j = 0; j < arnoldiSize; j++) {
+			phiOne(i, j) = extended(i, arnoldiSize + j);
+			phiTwo(i, j) = extended(i, 2 * arnoldiSize + j);
+		}
+	}
 
 }
 
-- 
2.43.0


From c5bed402552ae7263c032ccaec5816b035ff925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:25 +0000
Subject: [PATCH 41/58] fix: polynomial degrees in y of the 3D filters

---
 src/library/natrium/smoothing/ExponentialFilter.cpp | 2 +-
 src/library/natrium/smoothing/NewFilter.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/smoothing/ExponentialFilter.cpp b/src/library/natrium/smoothing/ExponentialFilter.cpp
index b22858c..bdecf5d 100755
--- a/src/library/natrium/smoothing/ExponentialFilter.cpp
+++ b/src/library/natrium/smoothing/ExponentialFilter.cpp
@@ -124,7 +124,7 @@ inline void ExponentialFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p + 1) * (p + 1) * (p + 1); i++) {
 		size_t ix = i / ((p + 1) * (p + 1));
 		size_t max = ix;
-		size_t iy = ( i % (p+1) * (p+1) ) / (p + 1);
+		size_t iy = (i % ((p + 1) * (p + 1))) / (p + 1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p + 1);
diff --git a/src/library/natrium/smoothing/NewFilter.cpp b/src/library/natrium/smoothing/NewFilter.cpp
index 848c5db..1fa6418 100755
--- a/src/library/natrium/smoothing/NewFilter.cpp
+++ b/src/library/natrium/smoothing/NewFilter.cpp
@@ -124,7 +124,7 @@ inline void NewFilter<3>::makeDegreeVectors(size_t p) {
 	for (size_t i = 0; i < (p+1)*(p+1)*(p+1); i++) {
 		size_t ix = i / ((p+1) * (p+1));
 		size_t max = ix;
-		size_t iy = i / (p+1);
+		size_t iy = (i % ((p+1) * (p+1))) / (p+1);
 		if (iy > max)
 			max = iy;
 		size_t iz = i % (p+1);
-- 
2.43.0


From 5a2afcf13188e25af46255d30d96ef1a3217d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 42/58] Revert the check for hanging nodes in SEDG: they are
 already refused (by Trilinos)

---
 src/library/natrium/advection/SEDGMinLee.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/library/natrium/advection/SEDGMinLee.cpp b/src/library/natrium/advection/SEDGMinLee.cpp
index f408e17..9749f7e 100644
--- a/src/library/natrium/advection/SEDGMinLee.cpp
+++ b/src/library/natrium/advection/SEDGMinLee.cpp
@@ -406,10 +406,6 @@ void SEDGMinLee<dim>::assembleAndDistributeLocalFaceMatrices(size_t alpha,
 // Internal faces
 			typename DoFHandler<dim>::cell_iterator neighbor = cell->neighbor(
 					j);
-			if (neighbor->has_children() or cell->neighbor_is_coarser(j)) {
-				throw NotImplementedException("The SEDG solver does not support hanging nodes. "
-						"Use a globally refined mesh or semi-Lagrangian streaming.");
-			}
 			assembleAndDistributeInternalFace(alpha, cell, j, neighbor,
 					cell->neighbor_face_no(j), fe_face_values,
 					fe_subface_values, fe_neighbor_face_values,
-- 
2.43.0


From 5e7d333804eaa3302a18a41f50c9cc775e2afae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 43/58] fix: initialisation with gradients: nodes get their own
 gradient once, in physical units

---
 src/library/natrium/solver/CFDSolver.cpp | 38 +++++++++++++++++-------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index d7829da..940ddbe 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1147,17 +1147,18 @@ void CFDSolver<dim>::initializeDistributions() {
 
     case GRADIENTS: {
         LOG(BASIC) << "Initialize with velocity gradients" << endl;
-        const dealii::UpdateFlags update_flags = dealii::update_values | dealii::update_gradients
-                                                 | dealii::update_JxW_values;
+        const dealii::UpdateFlags update_flags = dealii::update_values | dealii::update_gradients;
         const dealii::DoFHandler<dim> & dof_handler =
                 *(getAdvectionOperator()->getDoFHandler());
+        // evaluate at the support points: point q belongs to degree of freedom q
+        const dealii::Quadrature<dim> support_quadrature(
+                getAdvectionOperator()->getFe()->get_unit_support_points());
         dealii::FEValues<dim> fe_values(this->getAdvectionOperator()->getMapping(),
-                *(this->getAdvectionOperator()->getFe()),
-                *(this->getAdvectionOperator()->getQuadrature()),
+                *(this->getAdvectionOperator()->getFe()), support_quadrature,
                 update_flags);
         size_t dofs_per_cell =
                 getAdvectionOperator()->getFe()->dofs_per_cell;
-        size_t n_q_points = getAdvectionOperator()->getQuadrature()->size();
+        size_t n_q_points = support_quadrature.size();
 
         std::vector<double> uxs;
         std::vector<double> uys;
@@ -1198,16 +1199,30 @@ void CFDSolver<dim>::initializeDistributions() {
             }
         }
 
+        // number of cells that share a degree of freedom
+        std::map<dealii::types::global_dof_index, size_t> n_cells;
         typename dealii::DoFHandler<dim>::active_cell_iterator cell =
                 dof_handler.begin_active(), endc = dof_handler.end();
         for (; cell != endc; ++cell) {
-            if (cell->is_locally_owned()) {
+            if (not cell->is_artificial()) {
+                cell->get_dof_indices(local_indices);
+                for (size_t q = 0; q < n_q_points; q++) {
+                    n_cells[local_indices[q]]++;
+                }
+            }
+        }
+        // time step and relaxation time
+        const double dx = m_timeIntegrator->getTimeStepSize();
+        const double tau = BGKStandard::calculateRelaxationParameter(
+                m_problemDescription->getViscosity(), dx, *m_stencil) + 0.5;
+
+        // ghost cells contribute to the degrees of freedom they share
+        for (cell = dof_handler.begin_active(); cell != endc; ++cell) {
+            if (not cell->is_artificial()) {
 
                 cell->get_dof_indices(local_indices);
 
-                // get averages
                 fe_values.reinit(cell);
-                const std::vector<double> &weights = fe_values.get_JxW_values();
 
                 // calculate gradients (for w and strain rate)
                 fe_values.get_function_gradients(u_local.at(0), ux_gradients);
@@ -1221,8 +1236,9 @@ void CFDSolver<dim>::initializeDistributions() {
                 fe_values.get_function_values(rho_local, rhos);
 
                 for (size_t q = 0; q < n_q_points; q++) {
-                    double dx = 1.0; //cell->minimum_vertex_distance()/ m_configuration->getSedgOrderOfFiniteElement();
-                    double tau = getTau() + 0.5;
+                    if (not locally_owned_dofs.is_element(local_indices[q])) {
+                        continue;
+                    }
                     double Pi_1[dim][dim] = {{0.0}};
                     for (int a = 0; a < dim; a++) {
                         for (int b = 0; b < dim; b++) {
@@ -1261,7 +1277,7 @@ void CFDSolver<dim>::initializeDistributions() {
                             }
                         }
                         fneq.at(i)*=m_stencil->getWeight(i);
-                        m_f.at(i)(local_indices[q])+=fneq.at(i);
+                        m_f.at(i)(local_indices[q])+=fneq.at(i) / n_cells[local_indices[q]];
                     }
 
                 }
-- 
2.43.0


From a000e171403a308d40ce455e38b5e2745d788b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:57 +0000
Subject: [PATCH 44/58] fix: mean velocity and entropy are integrals, not sums
 over nodes

---
 src/library/natrium/solver/PhysicalProperties.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/PhysicalProperties.cpp b/src/library/natrium/solver/PhysicalProperties.cpp
index 952b13d..cde5262 100644
--- a/src/library/natrium/solver/PhysicalProperties.cpp
+++ b/src/library/natrium/solver/PhysicalProperties.cpp
@@ -325,7 +325,7 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 
 // Integrate ux over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -347,9 +347,10 @@ double PhysicalProperties<dim>::meanVelocityX(const distributed_vector& ux,
 			feCellValues.reinit(cell);
 			for (size_t q = 0; q < n_q_points; q++) {
 				for (size_t i = 0; i < dofs_per_cell; i++) {
-					result += ux(localDoFIndices.at(i)) * feCellValues.JxW(q);
-					area += feCellValues.JxW(q);
+					result += ux(localDoFIndices.at(i))
+							* feCellValues.shape_value(i, q) * feCellValues.JxW(q);
 				}
+				area += feCellValues.JxW(q);
 			}
 		} /* if is locally owned */
 	} /* for all cells */
@@ -370,7 +371,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 
 	// Integrate rho over whole domain
 	size_t n_q_points = advection->getQuadrature()->size();
-	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values;
+	const dealii::UpdateFlags cellUpdateFlags = dealii::update_JxW_values | dealii::update_values;
 	const dealii::DoFHandler<dim> & dof_handler = *(advection->getDoFHandler());
 	dealii::FEValues<dim> feCellValues(advection->getMapping(),
 			*(advection->getFe()), *(advection->getQuadrature()),
@@ -397,7 +398,7 @@ double PhysicalProperties<dim>::entropy(const DistributionFunctions& f,
 						// atGhosted gives a vector that also contains the ghost elements
 						result -= f.atGhosted(j)(local_i)
 								* log(f.atGhosted(j)(local_i) / weights.at(j))
-								* feCellValues.JxW(q);
+								* feCellValues.shape_value(i, q) * feCellValues.JxW(q);
 					}
 				}
 			}
-- 
2.43.0


From 0fb3a0c73a4001ff679fa09809f2adab2afd4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:31 +0000
Subject: [PATCH 45/58] fix: the largest particle velocity of ten velocity sets
 was that of D2Q9

---
 src/library/natrium/stencils/D2Q19H.h  | 3 ---
 src/library/natrium/stencils/D2Q19V.h  | 3 ---
 src/library/natrium/stencils/D2Q25H.h  | 3 ---
 src/library/natrium/stencils/D2Q777.h  | 3 ---
 src/library/natrium/stencils/D3Q13.h   | 3 ---
 src/library/natrium/stencils/D3Q21.h   | 3 ---
 src/library/natrium/stencils/D3Q27.h   | 3 ---
 src/library/natrium/stencils/D3Q45.h   | 3 ---
 src/library/natrium/stencils/D3Q77.h   | 3 ---
 src/library/natrium/stencils/D3V27.h   | 3 ---
 src/library/natrium/stencils/Stencil.h | 9 ++++++++-
 11 files changed, 8 insertions(+), 31 deletions(-)

diff --git a/src/library/natrium/stencils/D2Q19H.h b/src/library/natrium/stencils/D2Q19H.h
index 5aafc86..534175a 100644
--- a/src/library/natrium/stencils/D2Q19H.h
+++ b/src/library/natrium/stencils/D2Q19H.h
@@ -147,9 +147,6 @@ public:
 	}
 
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-        return sqrt(2)*m_scaling;
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D2Q19V.h b/src/library/natrium/stencils/D2Q19V.h
index 539415d..4b7c6f2 100644
--- a/src/library/natrium/stencils/D2Q19V.h
+++ b/src/library/natrium/stencils/D2Q19V.h
@@ -147,9 +147,6 @@ public:
 		}
 	}
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-        return sqrt(2)*m_scaling;
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D2Q25H.h b/src/library/natrium/stencils/D2Q25H.h
index 2912676..d8d5e3c 100644
--- a/src/library/natrium/stencils/D2Q25H.h
+++ b/src/library/natrium/stencils/D2Q25H.h
@@ -146,9 +146,6 @@ public:
 		}
 	}
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-        return sqrt(2)*m_scaling;
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D2Q777.h b/src/library/natrium/stencils/D2Q777.h
index 37fdfee..3742d98 100644
--- a/src/library/natrium/stencils/D2Q777.h
+++ b/src/library/natrium/stencils/D2Q777.h
@@ -2404,9 +2404,6 @@ public:
 		}
 	}
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-        return sqrt(2)*m_scaling;
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D3Q13.h b/src/library/natrium/stencils/D3Q13.h
index 476a2d2..de921a4 100644
--- a/src/library/natrium/stencils/D3Q13.h
+++ b/src/library/natrium/stencils/D3Q13.h
@@ -136,9 +136,6 @@ namespace natrium {
         }
       }
 
-      virtual double getMaxParticleVelocityMagnitude() const {
-    	  return m_scaling*sqrt(2);
-      }
 
       virtual double getScaling() const {
         return m_scaling;
diff --git a/src/library/natrium/stencils/D3Q21.h b/src/library/natrium/stencils/D3Q21.h
index deb8588..e80a61b 100644
--- a/src/library/natrium/stencils/D3Q21.h
+++ b/src/library/natrium/stencils/D3Q21.h
@@ -135,9 +135,6 @@ public:
 		}
 	}
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-		   return m_scaling*sqrt(2);
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D3Q27.h b/src/library/natrium/stencils/D3Q27.h
index 1997b90..9f7f139 100755
--- a/src/library/natrium/stencils/D3Q27.h
+++ b/src/library/natrium/stencils/D3Q27.h
@@ -184,9 +184,6 @@ public:
 		}
 	}
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-		return m_scaling * sqrt(2);
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D3Q45.h b/src/library/natrium/stencils/D3Q45.h
index 9589c4d..439fd47 100644
--- a/src/library/natrium/stencils/D3Q45.h
+++ b/src/library/natrium/stencils/D3Q45.h
@@ -208,9 +208,6 @@ public:
 	}
 
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-        return sqrt(2)*m_scaling;
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D3Q77.h b/src/library/natrium/stencils/D3Q77.h
index 33a5662..6b62698 100644
--- a/src/library/natrium/stencils/D3Q77.h
+++ b/src/library/natrium/stencils/D3Q77.h
@@ -304,9 +304,6 @@ public:
 	}
 
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-        return sqrt(2)*m_scaling;
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/D3V27.h b/src/library/natrium/stencils/D3V27.h
index 9e94ea6..8fafdf2 100755
--- a/src/library/natrium/stencils/D3V27.h
+++ b/src/library/natrium/stencils/D3V27.h
@@ -151,9 +151,6 @@ public:
 		}
 	}
 
-	virtual double getMaxParticleVelocityMagnitude() const {
-		return m_scaling * sqrt(2);
-	}
 
 	virtual double getScaling() const {
 		return m_scaling;
diff --git a/src/library/natrium/stencils/Stencil.h b/src/library/natrium/stencils/Stencil.h
index 7cb41cc..3bc1761 100644
--- a/src/library/natrium/stencils/Stencil.h
+++ b/src/library/natrium/stencils/Stencil.h
@@ -155,7 +155,14 @@ public:
 
 	virtual double getSpeedOfSound() const = 0;
 	virtual double getSpeedOfSoundSquare() const = 0;
-	virtual double getMaxParticleVelocityMagnitude() const = 0;
+	/// the length of the longest direction
+	virtual double getMaxParticleVelocityMagnitude() const {
+		double max = 0.0;
+		for (size_t i = 0; i < m_q; i++) {
+			max = std::max(max, (double) m_directions.at(i).l2_norm());
+		}
+		return max;
+	}
 
 	void getMomentBasis(numeric_matrix& m) const{
 		m = m_momentBasis;
-- 
2.43.0


From 38291b1f990fb4313be53c57c2f9a783932faae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 46/58] fix: the entropy of the initial state was NaN,
 populations at ghost nodes were not updated

---
 src/library/natrium/solver/CFDSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 940ddbe..a3990c6 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -1366,6 +1366,9 @@ void CFDSolver<dim>::initializeDistributions() {
 
 	m_time = t0;
 
+	// communicate: populations are also read at ghost nodes
+	m_f.updateGhosted();
+
 	LOG(BASIC) << "Initialize distribution functions: done." << endl;
 }
 
-- 
2.43.0


From 20f07b673035b79964c8662bd722a98e5ed3d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 47/58] fix: collisions used the initial time step when the
 time integrator had changed it

---
 src/library/natrium/solver/CFDSolver.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index a3990c6..6fdbe05 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -818,10 +818,8 @@ void CFDSolver<dim>::collide() {
 		CFDSolverUtilities::getWriteableDensity(writeable_rho, m_density,
 				m_advectionOperator->getLocallyOwnedDofs());
 
-		double delta_t = CFDSolverUtilities::calculateTimestep<dim>(
-					*(m_problemDescription->getMesh()),
-					m_configuration->getSedgOrderOfFiniteElement(), *m_stencil,
-					m_configuration->getCFL());
+		// embedded time integrators change the time step
+		double delta_t = m_timeIntegrator->getTimeStepSize();
 
 
 // TODO member function collisionModel
-- 
2.43.0


From b2874368c58a53d83460416944c709f3ef58e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 48/58] fix: implicit time integrators added to rows of other
 processes' matrices

ThetaMethod and DealIIWrapper added the identity to all rows of distributed
matrices; with more than one process Trilinos aborts the program.
---
 .../natrium/timeintegration/DealIIWrapper.cpp      |  7 +++++--
 .../natrium/timeintegration/ThetaMethod.cpp        | 14 ++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/library/natrium/timeintegration/DealIIWrapper.cpp b/src/library/natrium/timeintegration/DealIIWrapper.cpp
index 8ee706a..471fc3a 100644
--- a/src/library/natrium/timeintegration/DealIIWrapper.cpp
+++ b/src/library/natrium/timeintegration/DealIIWrapper.cpp
@@ -291,8 +291,11 @@ distributed_vector natrium::DealIIWrapper<distributed_sparse_matrix,
 	m_tmpMatrix.copy_from(*m_systemMatrix);
 	// I-theta*A
 	m_tmpMatrix *= (-tau);
-	for (size_t i = 0; i < m_tmpMatrix.n(); i++) {
-		m_tmpMatrix.add(i, i, 1.0);
+	const dealii::IndexSet& locally_owned =
+			m_tmpMatrix.locally_owned_range_indices();
+	for (dealii::IndexSet::ElementIterator it(locally_owned.begin());
+			it != locally_owned.end(); it++) {
+		m_tmpMatrix.add(*it, *it, 1.0);
 	}
 
 	dealii::SolverControl solver_control(m_iterations, m_tol * f.l2_norm(),
diff --git a/src/library/natrium/timeintegration/ThetaMethod.cpp b/src/library/natrium/timeintegration/ThetaMethod.cpp
index 21b0eef..7de393f 100644
--- a/src/library/natrium/timeintegration/ThetaMethod.cpp
+++ b/src/library/natrium/timeintegration/ThetaMethod.cpp
@@ -94,8 +94,11 @@ template<> double ThetaMethod<distributed_sparse_matrix, distributed_vector>::st
 	}
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
-	for (size_t i = 0; i < m_tmpMatrix.n(); i++) {
-		m_tmpMatrix.add(i, i, 1.0);
+	const dealii::IndexSet& locally_owned =
+			m_tmpMatrix.locally_owned_range_indices();
+	for (dealii::IndexSet::ElementIterator it(locally_owned.begin());
+			it != locally_owned.end(); it++) {
+		m_tmpMatrix.add(*it, *it, 1.0);
 	}
 	// (I-theta*dt*A)f(t) + dt*A*f(t) + dt*b
 	{
@@ -224,8 +227,11 @@ template<> double ThetaMethod<distributed_sparse_block_matrix,
 	// I-theta*dt*A
 	m_tmpMatrix *= (-m_theta);
 	for (size_t I = 0; I < m_tmpMatrix.n_block_cols(); I++) {
-		for (size_t i = 0; i < m_tmpMatrix.block(I, I).n(); i++) {
-			m_tmpMatrix.block(I, I).add(i, i, 1.0);
+		const dealii::IndexSet& locally_owned =
+				m_tmpMatrix.block(I, I).locally_owned_range_indices();
+		for (dealii::IndexSet::ElementIterator it(locally_owned.begin());
+				it != locally_owned.end(); it++) {
+			m_tmpMatrix.block(I, I).add(*it, *it, 1.0);
 		}
 	}
 
-- 
2.43.0


From 288343eabc444d7c98c50719e6b0b93b9747b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 49/58] fix: the temperature of a resumed run used the
 velocities of other nodes

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 3d1124a..bbd2721 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -82,7 +82,7 @@ public:
                 for (size_t i = 0; i < this->m_stencil->getQ(); i++) {
                     double sum = 0.0;
                     for (size_t a = 0; a < dim; a++) {
-                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(i));
+                        sum += (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it)) * (this->getStencil()->getDirection(i)[a] - this->m_velocity.at(a)(*it));
                     }
                     temperature += sum * this->m_f.at(i)(*it) / this->getStencil()->getSpeedOfSoundSquare() +
                             m_g.at(i)(*it);
-- 
2.43.0


From 689930ce592e814f1d30bea1063de7fb6d0c91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:18 +0000
Subject: [PATCH 50/58] fix: moments of MRTStandard and MRTEntropic D2Q9 at
 densities other than one

---
 src/library/natrium/collision/MRTEntropic.cpp | 4 ++--
 src/library/natrium/collision/MRTStandard.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/natrium/collision/MRTEntropic.cpp b/src/library/natrium/collision/MRTEntropic.cpp
index ad83b7f..20d3077 100644
--- a/src/library/natrium/collision/MRTEntropic.cpp
+++ b/src/library/natrium/collision/MRTEntropic.cpp
@@ -111,8 +111,8 @@ void MRTEntropic::collideAllD2Q9(DistributionFunctions& f,
 		meq.at(4) = 0;
 		meq.at(5) = jy;
 		meq.at(6) = 0;
-		meq.at(7) = jx * jx - jy * jy;
-		meq.at(8) = jx * jy;
+		meq.at(7) = (jx * jx - jy * jy) / rho;
+		meq.at(8) = jx * jy / rho;
 
 		//relax and rescale the moments
 
diff --git a/src/library/natrium/collision/MRTStandard.cpp b/src/library/natrium/collision/MRTStandard.cpp
index 14f20a5..6592946 100644
--- a/src/library/natrium/collision/MRTStandard.cpp
+++ b/src/library/natrium/collision/MRTStandard.cpp
@@ -116,8 +116,8 @@ void MRTStandard::collideAllD2Q9(DistributionFunctions& f,
 			m.at(7) = f.at(1)(i) - f.at(2)(i) + f.at(3)(i) - f.at(4)(i);
 			m.at(8) = f.at(5)(i) - f.at(6)(i) + f.at(7)(i) - f.at(8)(i);
 
-			double ux = m.at(3);
-			double uy = m.at(5);
+			double ux = m.at(3) / densities(i);
+			double uy = m.at(5) / densities(i);
 			//cout<< "Test2"<< endl;
 			// calculate the moment equilibrium distribution function
 
-- 
2.43.0


From e257d76f94dd142772ca6882509bb1ee8b5b2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 51/58] fix: final output of benchmark runs

BenchmarkCFDSolver::output dropped is_final, so that the solution and the checkpoint at the end of a run were never written.
---
 src/library/natrium/solver/BenchmarkCFDSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
index b4a5c97..dcb0348 100644
--- a/src/library/natrium/solver/BenchmarkCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCFDSolver.cpp
@@ -43,8 +43,8 @@ template<size_t dim> BenchmarkCFDSolver<dim>::BenchmarkCFDSolver(
 } /*BenchmarkCFDSolver constructor */
 
 template<size_t dim>
-void BenchmarkCFDSolver<dim>::output(size_t iteration, bool ) {
-	CFDSolver<dim>::output(iteration);
+void BenchmarkCFDSolver<dim>::output(size_t iteration, bool is_final) {
+	CFDSolver<dim>::output(iteration, is_final);
 	// output error table
 	if (not this->getConfiguration()->isSwitchOutputOff()) {
 		if (this->getIteration()
-- 
2.43.0


From 9da9d6150d656942b578bef6a45a0c953530ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 52/58] fix: error table of compressible benchmark runs

The override of output() was never called, as CompressibleCFDSolver::run writes its output by compressibleOutput().
---
 .../natrium/solver/BenchmarkCompressibleCFDSolver.cpp       | 6 +++---
 src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h | 2 +-
 src/library/natrium/solver/CompressibleCFDSolver.h          | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
index e989a13..c6ed691 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.cpp
@@ -40,8 +40,8 @@ namespace natrium {
     } /*BenchmarkCFDSolver constructor */
 
     template<size_t dim>
-    void BenchmarkCompressibleCFDSolver<dim>::output(size_t iteration, bool ) {
-        CompressibleCFDSolver<dim>::output(iteration);
+    void BenchmarkCompressibleCFDSolver<dim>::compressibleOutput(size_t iteration, bool is_final) {
+        CompressibleCFDSolver<dim>::compressibleOutput(iteration, is_final);
         // output error table
         if (not this->getConfiguration()->isSwitchOutputOff()) {
             if (this->getIteration()
@@ -49,7 +49,7 @@ namespace natrium {
                 m_compressibleErrorStats->printNewLine();
             }
         }
-    } /*output*/
+    } /*compressibleOutput*/
 
     template<size_t dim>
     void BenchmarkCompressibleCFDSolver<dim>::getAllAnalyticDensities(double time,
diff --git a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
index cd90e3f..299d037 100644
--- a/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
+++ b/src/library/natrium/solver/BenchmarkCompressibleCFDSolver.h
@@ -40,7 +40,7 @@ namespace natrium {
         /**
          * @short create output data and write to file
          */
-        virtual void output(size_t iteration, bool is_final = false);
+        virtual void compressibleOutput(size_t iteration, bool is_final);
 
 /// gives the possibility for Benchmark instances to add the analytic solution to output
         virtual void addAnalyticSolutionToOutput(dealii::DataOut<dim>& data_out) {
diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index bbd2721..94d38c7 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -413,7 +413,7 @@ void compressibleFilter() {
 		member = writeable;
 	}
 
-	void compressibleOutput(size_t iteration, bool is_final) {
+	virtual void compressibleOutput(size_t iteration, bool is_final) {
 
 
 // start timer
-- 
2.43.0


From 51f75c8b64c07c081d1d388847644232d3493de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:42 +0000
Subject: [PATCH 53/58] fix: first-order bounce-back walls lost the second
 populations of compressible runs

---
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index 623c327..ca8ee03 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -148,6 +148,12 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
                         g.at(hit.getDestination().direction)(hit.getDestination().index) =
                                 f.at(hit.getDestination().direction)(hit.getDestination().index) * (temperature) *
                                 (2.0 * C_v - dim);
+                    // bounce back of g, as of f
+                    if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName() ==
+                        FIRST_ORDER_BB)
+                        g.at(hit.getDestination().direction)(hit.getDestination().index) =
+                                g.at(m_stencil.getIndexOfOppositeDirection(hit.getDestination().direction))(
+                                        hit.getDestination().index);
 // calculate new g distribution functions at hits
 
                 } /* for all hits */
-- 
2.43.0


From a1020ec7057fd42af8615fc91cd2c88dd14b428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:42 +0000
Subject: [PATCH 54/58] fix: inflow of another temperature than one in
 compressible runs

---
 src/library/natrium/boundaries/SLEquilibriumBoundary.h     | 4 ++++
 .../natrium/boundaries/SemiLagrangianBoundaryHandler.cpp   | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/library/natrium/boundaries/SLEquilibriumBoundary.h b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
index a0714ca..bb8ed60 100755
--- a/src/library/natrium/boundaries/SLEquilibriumBoundary.h
+++ b/src/library/natrium/boundaries/SLEquilibriumBoundary.h
@@ -34,6 +34,10 @@ public:
 
 	//virtual ~SLEquilibriumBoundary();
 
+	double getTemperature() const {
+		return m_temperature;
+	}
+
 	/////////////////////////////////////////////////
 	// FLAGS ////////////////////////////////////////
 	/////////////////////////////////////////////////
diff --git a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
index ca8ee03..cb38472 100755
--- a/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
+++ b/src/library/natrium/boundaries/SemiLagrangianBoundaryHandler.cpp
@@ -7,6 +7,7 @@
 
 #include "SemiLagrangianBoundaryHandler.h"
 #include "BoundaryFlags.h"
+#include "SLEquilibriumBoundary.h"
 
 namespace natrium {
 
@@ -112,7 +113,6 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
     void SemiLagrangianBoundaryHandler<dim>::applyToG(DistributionFunctions &f, DistributionFunctions &g, double t, const double gamma) {
 
         const double C_v = 1. / (gamma - 1.0);
-        const double temperature = 1.0;
 
         std::vector<dealii::Point<dim> > local_hit_points;
         typename HitList<dim>::iterator cell_it = m_hitList.begin();
@@ -144,10 +144,13 @@ void SemiLagrangianBoundaryHandler<dim>::apply(DistributionFunctions& f_new,
                 for (size_t i = 0; i < point_hits.n_hits(); i++) {
                     const BoundaryHit<dim> &hit = point_hits.at(i);
                     if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName() ==
-                        VELOCITY_EQUILIBRIUM_BOUNDARY)
+                        VELOCITY_EQUILIBRIUM_BOUNDARY) {
+                        const double temperature = boost::static_pointer_cast<SLEquilibriumBoundary<dim> >(
+                                m_boundaries.getBoundary(hit.getBoundaryId()))->getTemperature();
                         g.at(hit.getDestination().direction)(hit.getDestination().index) =
                                 f.at(hit.getDestination().direction)(hit.getDestination().index) * (temperature) *
                                 (2.0 * C_v - dim);
+                    }
                     // bounce back of g, as of f
                     if (m_boundaries.getBoundary(hit.getBoundaryId())->getBoundaryName() ==
                         FIRST_ORDER_BB)
-- 
2.43.0


From 1a300a68d3c18fb93920c8f9bd9c3cbfcb72f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:24 +0000
Subject: [PATCH 55/58] fix: error tables of benchmark runs on several
 processes

Every process opened the file and truncated it, possibly after the first one had written the header: the table then began with zero bytes.
---
 .../natrium/solver/CompressibleErrorStats.cpp      | 14 +++++++++-----
 src/library/natrium/solver/ErrorStats.cpp          | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleErrorStats.cpp b/src/library/natrium/solver/CompressibleErrorStats.cpp
index 49877c4..eb6ec95 100644
--- a/src/library/natrium/solver/CompressibleErrorStats.cpp
+++ b/src/library/natrium/solver/CompressibleErrorStats.cpp
@@ -33,13 +33,17 @@ namespace natrium {
         m_l2DensityError = 0.0;
         m_maxUAnalytic = 0.0;
 
-        // create file (if necessary)
+        // create file (if necessary); on one process, another one would truncate what is already written
         if (m_solver->getIterationStart() > 0) {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-                                                                 std::fstream::out | std::fstream::app);
+            if (is_MPI_rank_0()) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+                        std::fstream::out | std::fstream::app);
+            }
         } else {
-            m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-                                                                 std::fstream::out);
+            if (is_MPI_rank_0()) {
+                m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+                        std::fstream::out);
+            }
             printHeaderLine();
         }
         MPI_sync();
diff --git a/src/library/natrium/solver/ErrorStats.cpp b/src/library/natrium/solver/ErrorStats.cpp
index 80ad3fd..4f79891 100644
--- a/src/library/natrium/solver/ErrorStats.cpp
+++ b/src/library/natrium/solver/ErrorStats.cpp
@@ -28,13 +28,17 @@ ErrorStats<dim>::ErrorStats(BenchmarkCFDSolver<dim> * cfdsolver,
 	m_l2DensityError = 0.0;
 	m_maxUAnalytic = 0.0;
 
-	// create file (if necessary)
+	// create file (if necessary); on one process, another one would truncate what is already written
 	if (m_solver->getIterationStart() > 0) {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-				std::fstream::out | std::fstream::app);
+		if (is_MPI_rank_0()) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+					std::fstream::out | std::fstream::app);
+		}
 	} else {
-		m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
-				std::fstream::out);
+		if (is_MPI_rank_0()) {
+			m_errorsTableFile = boost::make_shared<std::fstream>(tableFileName,
+					std::fstream::out);
+		}
 		printHeaderLine();
 	}
 	MPI_sync();
-- 
2.43.0


From 7472a43b4f9b91deb21b2b61b249335b5b64f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 56/58] fix: compressible turbulence table shows the state of
 the row's iteration

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index 94d38c7..c6615e4 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -1023,9 +1023,6 @@ void compressibleFilter() {
             this->stream();
             gStream();
             compressibleFilter();
-            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
-                this->m_compressibleTurbulenceStats->apply();
-            }
             if(this->m_i==200) {
 
 
@@ -1034,6 +1031,9 @@ void compressibleFilter() {
             }
 
             this->collide();
+            if (this->m_configuration->isOutputCompressibleTurbulenceStatistics()) {
+                this->m_compressibleTurbulenceStats->apply();
+            }
 
             for (size_t i = 0; i < this->m_dataProcessors.size(); i++) {
                 this->m_dataProcessors.at(i)->apply();
-- 
2.43.0


From 0702f84785ed91a8bd08475448e807fb07b07a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 57/58] fix: no checkpoints of compressible runs with output
 switched off

---
 src/library/natrium/solver/CompressibleCFDSolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/natrium/solver/CompressibleCFDSolver.h b/src/library/natrium/solver/CompressibleCFDSolver.h
index c6615e4..bd8ac34 100644
--- a/src/library/natrium/solver/CompressibleCFDSolver.h
+++ b/src/library/natrium/solver/CompressibleCFDSolver.h
@@ -551,7 +551,8 @@ void compressibleFilter() {
         }
         // output: checkpoint
         // no output if checkpoint interval > 10^8
-        if (((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
+        if ((not this->m_configuration->isSwitchOutputOff())
+            and ((iteration % this->m_configuration->getOutputCheckpointInterval() == 0)
              or is_final)
             and (this->m_configuration->getOutputCheckpointInterval() <= 1e8) and (this->m_iterationStart != this->m_i)) {
 
-- 
2.43.0


From e5cc63950e9d8ade0dad9c8293bb24a205565fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 58/58] fix: refuse regularization schemes that are not
 implemented for the stencil

---
 src/library/natrium/solver/CFDSolver.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/library/natrium/solver/CFDSolver.cpp b/src/library/natrium/solver/CFDSolver.cpp
index 6fdbe05..8b6f822 100644
--- a/src/library/natrium/solver/CFDSolver.cpp
+++ b/src/library/natrium/solver/CFDSolver.cpp
@@ -604,6 +604,18 @@ CFDSolver<dim>::CFDSolver(boost::shared_ptr<SolverConfiguration> configuration,
 	}
 
 	// Data processors for regularization
+	const RegularizationSchemeName regularization =
+			configuration->getRegularizationScheme();
+	const size_t n_velocities = m_stencil->getQ();
+	if (((regularization == PSEUDO_ENTROPY_MAXIMIZATION)
+			and (n_velocities != 9) and (n_velocities != 19))
+			or ((regularization == PSEUDO_ENTROPY_MAXIMIZATION_WITH_E)
+					and (n_velocities != 9))
+			or (regularization == ZERO_HIGH_ORDER_MOMENTS)
+			or (regularization == ENTROPY_MAXIMIZATION)) {
+		natrium_errorexit(
+				"The regularization scheme is not implemented for this stencil.");
+	}
 	if (configuration->getRegularizationScheme()
 			== PSEUDO_ENTROPY_MAXIMIZATION) {
 		appendDataProcessor(
-- 
2.43.0

