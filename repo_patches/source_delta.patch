From 4ac4f81d27d32cd55991f148c19dd0e1bf927cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:05 +0000
Subject: [PATCH 01/18] fix: reset the Adams starter together with the Adams
 solver

---
 nbody/nbody_solver_adams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..6b267df 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -97,5 +97,6 @@ void nbody_solver_adams::reset()
 	{
 		engine()->fill_buffer(m_corr_data, 0);
 	}
+	m_starter->reset();
 	m_step = 0;
 }
-- 
2.43.0


From 61df5f8f5b148cd69a4eca504d507fcf475c8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:52 +0000
Subject: [PATCH 02/18] fix: an implicit Runge-Kutta solver forgets its stage
 guess on reset

---
 nbody/nbody_solver_rk_butcher.cpp | 8 +++++---
 nbody/nbody_solver_rk_butcher.h   | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..e31ab19 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -12,7 +12,8 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 	m_substep_subdivisions(8),
 	m_error_threshold(1e-4),
 	m_refine_steps_count(1),
-	m_correction(false)
+	m_correction(false),
+	m_need_first_approach_k(true)
 {
 }
 
@@ -87,6 +88,7 @@ void nbody_solver_rk_butcher::reset()
 	{
 		engine()->fill_buffer(m_tcorr_data, 0);
 	}
+	m_need_first_approach_k = true;
 }
 
 const nbody_butcher_table* nbody_solver_rk_butcher::table() const
@@ -170,14 +172,14 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 	const nbcoord_t*	c = m_bt->get_c();
 	size_t				ps = engine()->problem_size();
 	size_t				coeff_count = steps + 1;
-	bool				need_first_approach_k = false;
+	bool				need_first_approach_k = m_need_first_approach_k;
 
 	std::vector<nbcoord_t>	coeff;
 	coeff.resize(coeff_count);
 
+	m_need_first_approach_k = false;
 	if(m_k.empty())
 	{
-		need_first_approach_k  = true;
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
diff --git a/nbody/nbody_solver_rk_butcher.h b/nbody/nbody_solver_rk_butcher.h
index 7b62772..a2b6dae 100644
--- a/nbody/nbody_solver_rk_butcher.h
+++ b/nbody/nbody_solver_rk_butcher.h
@@ -19,6 +19,7 @@ class NBODY_DLL nbody_solver_rk_butcher : public nbody_solver
 	nbcoord_t					m_error_threshold;
 	size_t						m_refine_steps_count;
 	bool						m_correction;
+	bool						m_need_first_approach_k;
 public:
 	explicit nbody_solver_rk_butcher(nbody_butcher_table*);
 	~nbody_solver_rk_butcher();
-- 
2.43.0


From 91a6144622eb346c4798b19fd1e099deff531818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:18 +0000
Subject: [PATCH 03/18] fix: creating an Adams solver with an Adams starter
 recursed without end

---
 nbody/nbody_solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index f78e336..c497c1c 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -22,6 +22,7 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	{
 		QVariantMap	starter_param(param);
 		starter_param["solver"] = param.value("starter_solver", "euler");
+		starter_param.remove("starter_solver");
 		nbody_solver*	starter = nbody_create_solver(starter_param);
 		if(starter == NULL)
 		{
-- 
2.43.0


From 34781e2a89e6c4279e87f4ea5fc472047b6b3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 04/18] fix: refuse Adams ranks without coefficients instead of
 reading out of bounds

---
 nbody/nbody_solvers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index c497c1c..c83d9a8 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -20,6 +20,11 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	nbody_solver*	solver = NULL;
 	if(type == "adams")
 	{
+		const int	rank = param.value("rank", 1).toInt();
+		if(rank < 1 || rank > 5)
+		{
+			return NULL;
+		}
 		QVariantMap	starter_param(param);
 		starter_param["solver"] = param.value("starter_solver", "euler");
 		starter_param.remove("starter_solver");
@@ -28,7 +33,7 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 		{
 			return NULL;
 		}
-		solver = new nbody_solver_adams(starter, param.value("rank", 1).toInt(),
+		solver = new nbody_solver_adams(starter, rank,
 										param.value("correction", false).toBool());
 	}
 	else if(type == "bs")
-- 
2.43.0


From e719598a49d132b36edbb07c002ea4f3216079f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:40 +0000
Subject: [PATCH 05/18] fix: space heap wrote out of bounds unless the body
 count was a power of two

Split so that the heap stays complete (unchanged for powers of two) and update
nodes on rebuild only after their children.
---
 nbody/nbody_space_heap.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..932749a 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -49,15 +49,18 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	// Update nodes [level_begin, level_end), their children are already updated
+	for(size_t level_end = count; level_end > NBODY_HEAP_ROOT_INDEX;)
 	{
+		size_t	level_begin = (level_end + 1) / 2;
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_begin; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
 			update(idx, left, rght);
 		}
+		level_end = level_begin;
 	}
 }
 
@@ -146,7 +149,13 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	// Keep the heap complete: leaves occupy exactly [count, 2*count)
+	size_t	full_level = 1;
+	while(full_level <= count / 2)
+	{
+		full_level *= 2;
+	}
+	size_t	left_size = std::min(full_level, count - full_level / 2);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From 5de303560cabea2620a1f5c5b370acf8fbd56834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:40 +0000
Subject: [PATCH 06/18] fix: nested tree traverse took an inner node with zero
 radius for a leaf

With coincident bodies (or zero node radius ratio) the inner node's missing body
index was used to write out of bounds, and its bodies were skipped.
---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From 078e06be8f9b08b318f7d249e46d13780d55fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:40 +0000
Subject: [PATCH 07/18] fix: space heap leaf kept the radius of an inner node
 of a previous build

---
 nbody/nbody_space_heap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 932749a..b8de60b 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -143,6 +143,7 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 	{
 		m_mass_center[idx] = nbvertex_t(rx[*indites], ry[*indites], rz[*indites]);
 		m_mass[idx] = mass[*indites];
+		m_radius_sqr[idx] = 0;
 		m_body_n[idx] = *indites;
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
-- 
2.43.0


From 1b4fc0d1fe803fcdd4f96a16b338c905da8ef377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 08/18] fix: write frame times to the stream index with 15
 digits

The default of 6 digits makes a resumed or replayed simulation lose its
time: 10000.01 is read back as 10000.
---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..f1fceb1 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -54,6 +54,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.setRealNumberPrecision(15);
 		return 0;
 	}
 
-- 
2.43.0


From 843e8ca77d7c3675ef94e9ddee08df57d4db138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 09/18] fix: write the header of every stream opened with the
 same object

The second stream had no header, color and mass files.
---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index f1fceb1..0b4e687 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -179,6 +179,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From 3315f4724c39aa3bbd4392183ffcf78807486462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 10/18] fix: report buffered stream writes that fail

Small writes only fail when they are flushed. A frame that never reached
the disk was listed in the index and reported as written.
---
 nbody/nbody_data_stream.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 0b4e687..0b22870 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -71,7 +71,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) || !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -85,7 +85,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) || !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
@@ -150,7 +150,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't flush file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
@@ -158,6 +163,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 					<< fpos << "\n";
 
 	d->m_idx_stream.flush();
+	if(d->m_idx_stream.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName()
+				 << d->m_idx.errorString();
+		return -1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From 832ee3c6a80481eeb5dd09cd29fa4c0ff5ec08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 11/18] fix: forget header, colors and masses of a closed
 stream

Reading a second stream with the same reader kept the colors and masses
of the first one and accepted a missing header.
---
 nbody/nbody_data_stream_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..bdd4bd5 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -194,6 +194,11 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
+	d->m_colors_read = false;
+	d->m_masses_read = false;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
-- 
2.43.0


From d21dd1d957f6e387e6608f51054dfeaf6f2e5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 12/18] fix: seek to the frame read last

After the last frame was read, seeking to it did nothing and reading it
again failed.
---
 nbody/nbody_data_stream_reader.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index bdd4bd5..8b5e053 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -226,11 +226,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -305,9 +300,9 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
-	if(0 != seek(d->m_current_frame))
+	if(d->m_current_frame >= d->m_frames.size())
 	{
-		qDebug() << "Can't seek to current frame" << d->m_current_frame;
+		qDebug() << "No current frame";
 		return -1;
 	}
 
-- 
2.43.0


From a1fbc6f6a9bb5af18eda3a65f459d53292b2946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 13/18] fix: nbody_data::save reports a failed write

The text stream was only flushed by its destructor, after the result was
decided: saving to a full disk returned true and left a truncated file.
---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..705fc6e 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -436,6 +436,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From b66a791ad46bf532195175dc6d08df44de8ec4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 14/18] fix: zeno loader rejects malformed numbers

A line that is no number was silently loaded as zero, while the loader of
the other formats rejects it.
---
 nbody/nbody_data.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 705fc6e..8d4c187 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -580,7 +580,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass to double" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -595,9 +601,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(&ok[0]),
+									   pos_line[1].toDouble(&ok[1]),
+									   pos_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector to double" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -613,9 +625,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(&ok[0]),
+										vel_line[1].toDouble(&ok[1]),
+										vel_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector to double" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From 58baf8c99b26886563e3cda7f3442dd4911d1e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:05 +0000
Subject: [PATCH 15/18] fix: update_tree visits every inner node for any body
 count

The levels of a heap over a body count that is not a power of two are not
[n/2, n): the level loop enqueued ranges that are not a multiple of the work
group size (an OpenCL error) and skipped nodes.
---
 nbody/nbody_engine_opencl.cl  |  6 +++---
 nbody/nbody_engine_opencl.cpp | 14 +++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cl b/nbody/nbody_engine_opencl.cl
index 41bc35f..e13cada 100644
--- a/nbody/nbody_engine_opencl.cl
+++ b/nbody/nbody_engine_opencl.cl
@@ -453,7 +453,7 @@ __kernel void UpdateLeafBH(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__kernel void UpdateNodeBH(int level_size,
+__kernel void UpdateNodeBH(int level_begin, int level_end,
 						   __global nbcoord_t* tree_cmx,
 						   __global nbcoord_t* tree_cmy,
 						   __global nbcoord_t* tree_cmz,
@@ -467,8 +467,8 @@ __kernel void UpdateNodeBH(int level_size,
 						   __global nbcoord_t* tree_crit_r2,
 						   nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = get_global_id(0) + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = get_global_id(0) + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..7bf1849 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -107,7 +107,7 @@ typedef cl::make_kernel< cl_int, // Points count
 		cl::Buffer	//body indites
 		> UpdateLeafBH;
 
-typedef cl::make_kernel< cl_int, // Level size
+typedef cl::make_kernel< cl_int, cl_int, // First and last + 1 node of the level
 		cl::Buffer, cl::Buffer, cl::Buffer,	// mass center [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box min [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box max [x, y, z]
@@ -1046,20 +1046,23 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	// Nodes [level_begin, level_end) depends only on nodes [level_end, tree_size)
+	for(size_t level_end = data_size; level_end > 1;)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
-		cl::NDRange	level_range(std::max(level_size, local_range[0]));
+		size_t		level_begin = (level_end + 1) / 2;
+		size_t		level_size = level_end - level_begin;
+		size_t		group_count = 1 + (level_size - 1) / local_range[0];
+		cl::NDRange	level_range(group_count * local_range[0]);
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
 			cl::EnqueueArgs	eargs(ctx.m_queue, level_range, local_range);
 			cl::Event		ev(
-				ctx.m_update_node_hbh(eargs, level_size,
+				ctx.m_update_node_hbh(eargs, level_begin, level_end,
 									  m_tree_cmx->buffer(dev_n),
 									  m_tree_cmy->buffer(dev_n),
 									  m_tree_cmz->buffer(dev_n),
@@ -1075,6 +1078,7 @@ void nbody_engine_opencl::data::update_tree(
 			events.push_back(ev);
 		}
 		cl::Event::waitForEvents(events);
+		level_end = level_begin;
 	}
 }
 void nbody_engine_opencl::fcompute_bh_impl(const nbcoord_t& t, const memory* _y, memory* _f,
-- 
2.43.0


From 4320ca6f4bd83c23cf7094ef944b27891ec53c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:50 +0000
Subject: [PATCH 16/18] fix: fmaxabs does not fix its work group size

A work group size of 4 is an error when the number of blocks is not a
multiple of 4, e.g. 64 bodies with a block size of 64.
---
 nbody/nbody_engine_opencl.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 7bf1849..3ec717d 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1485,7 +1485,6 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 	size_t					device_data_size = problem_size() / device_count;
 	size_t					rdevice_data_size = rsize / device_count;
 	cl::NDRange				global_range(rsize);
-	cl::NDRange				local_range(4);
 	std::vector<cl::Event>	events;
 	smemory					out(sizeof(nbcoord_t)*rsize, d->m_devices);
 
@@ -1494,7 +1493,7 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 		size_t			offset = dev_n * device_data_size;
 		size_t			roffset = dev_n * rdevice_data_size;
 		data::devctx&	ctx(d->m_devices[dev_n]);
-		cl::EnqueueArgs	eargs(ctx.m_queue, global_range, local_range);
+		cl::EnqueueArgs	eargs(ctx.m_queue, global_range);
 		cl::Event		ev(ctx.m_fmaxabs(eargs, a->buffer(dev_n), offset,
 										 offset + device_data_size,
 										 out.buffer(dev_n), roffset));
-- 
2.43.0


From 0414e7f8984f0cd5b11fe1807464415b4d63a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:30 +0000
Subject: [PATCH 17/18] fix: compute the full force of the distance-limited
 engine first when it starts at an intermediate step

nbody_engine_ah::fcompute used the empty adjacency lists (out of bounds) when
the step of the bodies was not a multiple of the full recompute rate before
the first call, e.g. after resuming a recording.
---
 nbody/nbody_engine_ah.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..eadeda3 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,9 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	// There is nothing to reuse yet when a simulation starts from an intermediate step
+	if(m_data->get_step() % m_full_recompute_rate == 0 ||
+	   m_adjacent_body.size() != m_data->get_count())
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From 6b0bd30f4a5018a51798e90d0353ca7a70477737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:02 +0000
Subject: [PATCH 18/18] fix: evaluate the trapeze corrector at the end of the
 step

---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..198ff4b 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -41,7 +41,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0

