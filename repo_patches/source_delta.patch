From bb8579d9438cbf2cceff277490f747088d82447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 01/80] fix: block partitioner aborts with few indexes or small
 weights

If the weight per part is smaller than 0.5, the loop over the indexes ends
before all parts got a range. This is fine: the remaining parts are empty.
---
 src/partitioner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a285f7c..a2708fe 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -616,7 +616,8 @@ void runBlockPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         }
         if ((task+1 == count) && (cycle+1 == cycles)) break;
     }
-    assert((task+1 == count) && (cycle+1 == cycles));
+    // with less than half an index weight per part, not all parts are reached:
+    // the remaining indexes go to the part we are at
     range.to.i[pdim] = s->range.to.i[pdim];
     laik_append_range(r, task, &range, 0, 0);
 }
-- 
2.43.0


From 20458de251a2e4ed09ecafb7707f525ff7656c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 02/80] fix: crash on switching partitioning if not part of the
 process group

Without being in the group, there is no transition and there also are no
mappings which could be freed.
---
 src/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index fb077bd..136227e 100644
--- a/src/data.c
+++ b/src/data.c
@@ -789,7 +789,7 @@ void doTransition(Laik_Data* d, Laik_Transition* t, Laik_ActionSeq* as,
         // no transition to exec, just free old mappings
 
         // only free mappings if not part of a reservation
-        if (fromList->res == 0)
+        if (fromList && (fromList->res == 0))
             freeMappingList(fromList, d->stat);
         return;
     }
-- 
2.43.0


From 40b062b543fa30ca389b9d198b2641bf8c21fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 03/80] fix: reduction of a multi-dimensional container on only
 one process

Handle it as a local copy as already done for 1d: the single backend can
not do reductions on more than one dimension.
---
 src/space.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 9fc04e2..a61252e 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1467,7 +1467,11 @@ do_calc_transition(Laik_Space* space,
                     }
                 }
 
-                if (fromAllto1OrAll) {
+                if (fromAllto1OrAll && (taskCount == 1)) {
+                    // only one input: local copy is enough (done above)
+                    assert(oneInputIsCopy(redOp));
+                }
+                else if (fromAllto1OrAll) {
                     assert(outputGroup > -2);
                     // complete space, always rangeNo 0 and mapNo 0
                     appendRedTOp( &(space->range), redOp,
-- 
2.43.0


From ae4c0baa31976d5b63d9e837fc30d908c1fd9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 04/80] fix: halo partitioner leaves out halos near to the
 borders of the space

With a distance to the border of the space not larger than the depth of the
halo, there was no halo at all. Clamp it to the space, as done in the corner
halo partitioner.
---
 src/partitioner.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index a2708fe..24748e0 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -312,43 +312,55 @@ void runHaloPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
         Laik_Range range = *s;
         laik_append_range(r, task, &range, tag, 0);
 
-        if (range.from.i[0] > sp.from.i[0] + depth) {
+        if (range.from.i[0] > sp.from.i[0]) {
             range.to.i[0] = range.from.i[0];
             range.from.i[0] -= depth;
+            if (range.from.i[0] < sp.from.i[0])
+                range.from.i[0] = sp.from.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
         range = *s;
-        if (range.to.i[0] < sp.to.i[0] - depth) {
+        if (range.to.i[0] < sp.to.i[0]) {
             range.from.i[0] = range.to.i[0];
             range.to.i[0] += depth;
+            if (range.to.i[0] > sp.to.i[0])
+                range.to.i[0] = sp.to.i[0];
             laik_append_range(r, task, &range, tag, 0);
         }
 
         if (dims > 1) {
             range = *s;
-            if (range.from.i[1] > sp.from.i[1] + depth) {
+            if (range.from.i[1] > sp.from.i[1]) {
                 range.to.i[1] = range.from.i[1];
                 range.from.i[1] -= depth;
+                if (range.from.i[1] < sp.from.i[1])
+                    range.from.i[1] = sp.from.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
             range = *s;
-            if (range.to.i[1] < sp.to.i[1] - depth) {
+            if (range.to.i[1] < sp.to.i[1]) {
                 range.from.i[1] = range.to.i[1];
                 range.to.i[1] += depth;
+                if (range.to.i[1] > sp.to.i[1])
+                    range.to.i[1] = sp.to.i[1];
                 laik_append_range(r, task, &range, tag, 0);
             }
 
             if (dims > 2) {
                 range = *s;
-                if (range.from.i[2] > sp.from.i[2] + depth) {
+                if (range.from.i[2] > sp.from.i[2]) {
                     range.to.i[2] = range.from.i[2];
                     range.from.i[2] -= depth;
+                    if (range.from.i[2] < sp.from.i[2])
+                        range.from.i[2] = sp.from.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
                 range = *s;
-                if (range.to.i[2] < sp.to.i[2] - depth) {
+                if (range.to.i[2] < sp.to.i[2]) {
                     range.from.i[2] = range.to.i[2];
                     range.to.i[2] += depth;
+                    if (range.to.i[2] > sp.to.i[2])
+                        range.to.i[2] = sp.to.i[2];
                     laik_append_range(r, task, &range, tag, 0);
                 }
             }
-- 
2.43.0


From eab19d96def5768d2c0a6ee9b14436a33c5245e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 05/80] fix: TCP2 process started before the master waits
 forever

If the master on another host was not listening yet, the registration was
dropped with a warning, and both the process and the master waited forever.
---
 src/backend-tcp2.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 7eef485..48bfcdd 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1802,6 +1802,14 @@ int startup_master(InstData* d)
 static
 int startup_non_master(InstData* d)
 {
+    // the master may not be up yet: retry until we can connect to it
+    ensure_conn(d, 0);
+    while(d->peer[0].state == PS_Error) {
+        usleep(200000);
+        d->peer[0].state = PS_Ready;
+        ensure_conn(d, 0);
+    }
+
     // register with master, get world size
     char msg[100];
     sprintf(msg, "register %.30s %.30s %d %s",
-- 
2.43.0


From 7179ec1560f1104a926db864568f70bf413d4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:45 +0000
Subject: [PATCH 06/80] fix: buffer overflow in name of partitionings

A name prefix of 10 characters and an ID with more than one digit do not fit
into the 13 bytes allocated (e.g. when cloning a partitioning).
---
 src/partitioning.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index ef0af90..7c29e47 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -247,8 +247,9 @@ Laik_Partitioning* laik_partitioning_new(char* name,
     }
 
     p->id = partitioning_id++;
-    p->name = strdup("            ");
-    sprintf(p->name, "%.10s-%d", name ? name : "part", p->id);
+    char pname[30];
+    sprintf(pname, "%.10s-%d", name ? name : "part", p->id);
+    p->name = strdup(pname);
 
     p->group = g;
     p->space = s;
-- 
2.43.0


From 53f175856775a9dbda5614d689342c1ad421576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:05 +0000
Subject: [PATCH 07/80] fix: hang on transitions for 2d/3d spaces with
 overlapping ranges

Sender and receiver used different checks for skipping data the receiver
already has locally, and a different order for multiple messages.
---
 src/space.c | 55 +++++++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/space.c b/src/space.c
index a61252e..f337c11 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1329,6 +1329,17 @@ void calcAddReductions(int tflags,
     freeBorderList();
 }
 
+// is given range fully part of one of the ranges of a task?
+static
+bool hasRangeLocal(Laik_RangeList* list, int task, Laik_Range* range)
+{
+    for(unsigned int o = list->off[task]; o < list->off[task+1]; o++)
+        if (laik_range_within_range(range, &(list->trange[o].range)))
+            return true;
+
+    return false;
+}
+
 static int trans_id = 0;
 
 // Calculate communication required for transitioning between partitionings
@@ -1485,30 +1496,21 @@ do_calc_transition(Laik_Space* space,
             else { // no reduction
 
                 // something to receive not coming from a reduction?
+                // order must match the order used for sending (see below)
                 for(int task = 0; task < taskCount; task++) {
                     if (task == myid) continue;
-                    for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
-
-                        // everything we have local will not have been sent
-                        // TODO: we only check for exact match to catch All
-                        // FIXME: should print out a Warning/Error as the App
-                        //        was requesting for overwriting of values!
-                        range = &(toRL->trange[o1].range);
-                        for(o2 = fromRL->off[myid]; o2 < fromRL->off[myid+1]; o2++) {
-                            if (laik_range_isEqual(range,
-                                                   &(fromRL->trange[o2].range))) {
-                                range = 0;
-                                break;
-                            }
-                        }
-                        if (range == 0) continue;
-
-                        for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
+                        for(o1 = toRL->off[myid]; o1 < toRL->off[myid+1]; o1++) {
 
                             range = laik_range_intersect(&(fromRL->trange[o2].range),
                                                        &(toRL->trange[o1].range));
                             if (range == 0) continue;
 
+                            // everything we have local will not have been sent
+                            // FIXME: should print out a Warning/Error as the App
+                            //        was requesting for overwriting of values!
+                            if (hasRangeLocal(fromRL, myid, range)) continue;
+
                             appendRecvTOp(range, o1 - toRL->off[myid],
                                           toRL->trange[o1].mapNo, task);
                         }
@@ -1521,20 +1523,6 @@ do_calc_transition(Laik_Space* space,
                 if (task == myid) continue;
                 for(o1 = fromRL->off[myid]; o1 < fromRL->off[myid+1]; o1++) {
 
-                    // everything the receiver has local, no need to send
-                    // TODO: we only check for exact match to catch All
-                    // FIXME: should print out a Warning/Error as the App
-                    //        requests overwriting of values!
-                    range = &(fromRL->trange[o1].range);
-                    for(o2 = fromRL->off[task]; o2 < fromRL->off[task+1]; o2++) {
-                        if (laik_range_isEqual(range,
-                                               &(fromRL->trange[o2].range))) {
-                            range = 0;
-                            break;
-                        }
-                    }
-                    if (range == 0) continue;
-
                     // we may send multiple messages to same task
                     for(o2 = toRL->off[task]; o2 < toRL->off[task+1]; o2++) {
 
@@ -1542,6 +1530,11 @@ do_calc_transition(Laik_Space* space,
                                                    &(toRL->trange[o2].range));
                         if (range == 0) continue;
 
+                        // everything the receiver has local, no need to send
+                        // FIXME: should print out a Warning/Error as the App
+                        //        requests overwriting of values!
+                        if (hasRangeLocal(fromRL, task, range)) continue;
+
                         appendSendTOp(range, o1 - fromRL->off[myid],
                                       fromRL->trange[o1].mapNo, task);
                     }
-- 
2.43.0


From 63571dc5ef5d2f538ab09ecd4a9a5ea6a1b11374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:37 +0000
Subject: [PATCH 08/80] fix: and/or reductions are bitwise also with MPI

The reduction functions of all types work bitwise, but the MPI backend mapped
to logical operations, giving other results for the same program.
---
 src/backend-mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index b0e9cbb..34669af 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -462,8 +462,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
-- 
2.43.0


From 9fa4bd9ca7f853fa3738d3521aff997b4a5a4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 09/80] fix: wrong address of elements in reused or reserved
 mappings

Offsets provided by layouts are relative to the start of the memory
allocated for a mapping. However, laik_get_map_addr() added them to
the address of the first required index.
---
 src/data.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index 136227e..35cf0f5 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1411,8 +1411,9 @@ char* laik_get_map_addr(Laik_Data* d, int n, Laik_Index* idx)
     Laik_Mapping* m = laik_get_map(d, n);
     if (!m) return 0;
 
+    // layout offsets are relative to the start of the allocation
     int64_t off = laik_offset(m->layout, m->layoutSection, idx);
-    return m->base + off * d->elemsize;
+    return m->start + off * d->elemsize;
 }
 
 
-- 
2.43.0


From 3fc1ae33f0357a2ad43bf58420cade65236cfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:04 +0000
Subject: [PATCH 10/80] fix: use strides of the own section in lexicographical
 layouts

For copying, packing and unpacking, always the strides of the first
section were used. These are wrong if a process has multiple mappings
of different extent.
---
 src/layout_lex.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6f7d429..0285dbc 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -180,8 +180,8 @@ void copy_lex(Laik_Range* range,
     Laik_Layout_Lex* toLayout = laik_is_layout_lex(to->layout);
     assert(fromLayout != 0);
     assert(toLayout != 0);
-    Lex_Entry* fromLayoutEntry = &(fromLayout->e[0]);
-    Lex_Entry* toLayoutEntry = &(toLayout->e[0]);
+    Lex_Entry* fromLayoutEntry = &(fromLayout->e[from->layoutSection]);
+    Lex_Entry* toLayoutEntry = &(toLayout->e[to->layoutSection]);
 
     unsigned int elemsize = from->data->elemsize;
     assert(elemsize == to->data->elemsize);
@@ -239,7 +239,7 @@ unsigned int pack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     if (laik_index_isEqual(dims, idx, &(s->to))) {
@@ -362,7 +362,7 @@ unsigned int unpack_lex(Laik_Mapping* m, Laik_Range* s,
 {
     unsigned int elemsize = m->data->elemsize;
     Laik_Layout_Lex* layout = laik_is_layout_lex(m->layout);
-    Lex_Entry* layoutEntry = &(layout->e[0]);
+    Lex_Entry* layoutEntry = &(layout->e[m->layoutSection]);
     int dims = m->layout->dims;
 
     // there should be something to unpack
-- 
2.43.0


From d8b7fb170047b09844b8d326a43147bd7b9ba26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:03 +0000
Subject: [PATCH 11/80] fix: crash on switching a container to no partitioning

---
 src/data.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/data.c b/src/data.c
index 35cf0f5..b840ab6 100644
--- a/src/data.c
+++ b/src/data.c
@@ -743,6 +743,8 @@ void initMaps(Laik_Transition* t,
 static
 void allocateMappings(Laik_MappingList* toList, Laik_SwitchStat* ss)
 {
+    if (toList == 0) return; // switching to no partitioning
+
     for(int i = 0; i < toList->count; i++) {
         Laik_Mapping* map = &(toList->map[i]);
         if (map->base) continue;
-- 
2.43.0


From 3abb1ddcbadb06c07a40d9246ae249675535b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:47 +0000
Subject: [PATCH 12/80] fix: TCP2 buffer overflows on sending data in text mode

With elements larger than around 25 bytes or spaces with negative
indexes, fixed-size string buffers were too small.
---
 src/backend-tcp2.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 48bfcdd..934c43c 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -335,7 +335,7 @@ bool next_lex(Laik_Range* range, Laik_Index* idx)
 static
 char* istr(int dims, Laik_Index* idx)
 {
-    static char str[50];
+    static char str[70]; // up to 3 indexes, each up to 20 digits
 
     if (dims == 1)
         sprintf(str, "%llu", (unsigned long long) idx->i[0]);
@@ -720,7 +720,7 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
             (t->reduce)(idxPtr, idxPtr, buf, 1, p->rro);
         }
         if ((esize == 8) && laik_log_begin(1)) {
-            char pstr[70];
+            char pstr[100];
             int dims = p->rcv_range->space->dims;
             sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
             laik_log(1, " pos %s: in %f res %f\n", pstr, *((double*)buf), *((double*)idxPtr));
@@ -767,7 +767,7 @@ void got_data(InstData* d, int lid, char* msg)
     char* idxPtr = m->start + off * p->relemsize;
 
     // position string for check
-    char pstr[70];
+    char pstr[100];
     int dims = p->rcv_range->space->dims;
     int s = sprintf(pstr, "(%d:%s)", p->roff, istr(dims, &(p->rcv_idx)));
 
@@ -777,8 +777,7 @@ void got_data(InstData* d, int lid, char* msg)
         while(msg[i] && (msg[i] == ' ')) i++;
     }
 
-    char data_in[100];
-    assert(len < 100);
+    char data_in[len];
     int l = 0;
 
     // parse hex bytes
@@ -2096,7 +2095,7 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
 static
 void send_data(int n, int dims, Laik_Index* idx, int toLID, void* p, int s)
 {
-    char str[100];
+    char str[120 + 3 * s];
     int o = 0;
     o += sprintf(str, "data %d (%d:%s)", s, n, istr(dims, idx));
     for(int i = 0; i < s; i++) {
-- 
2.43.0


From 6615bf8abead3c54c195c13cf6cf9d83f4e5db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 13/80] fix: bisection partitioner creates empty ranges if less
 indexes than tasks

---
 src/partitioner.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/partitioner.c b/src/partitioner.c
index 24748e0..dc1c68d 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -387,6 +387,7 @@ static void doBisection(Laik_RangeReceiver* r, Laik_PartitionerParams* p,
     int tag = 1; // TODO: make it a parameter
 
     assert(toTask > fromTask);
+    if (laik_range_isEmpty(s)) return; // less indexes than tasks
     if (toTask - fromTask == 1) {
         laik_append_range(r, fromTask, s, tag, 0);
         return;
-- 
2.43.0


From 48831f764ee47fb8a573b980f63a758057076ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 14/80] fix: abort on checking coverage of partitionings with
 many ranges

---
 src/rangelist.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 69de503..edd0237 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -163,14 +163,19 @@ Laik_TaskRange* laik_rangelist_tidrange(Laik_RangeList* list, int tid, int n)
 // print verbose debug output?
 //#define DEBUG_COVERSPACE 1
 
-// TODO: use dynamic list
-#define COVERLIST_MAX 100
-static Laik_Range notcovered[COVERLIST_MAX];
-static int notcovered_count;
+static Laik_Range* notcovered = 0;
+static int notcovered_count, notcovered_capacity = 0;
 
 static void appendToNotcovered(Laik_Range* s)
 {
-    assert(notcovered_count < COVERLIST_MAX);
+    if (notcovered_count == notcovered_capacity) {
+        notcovered_capacity = 100 + 2 * notcovered_capacity;
+        notcovered = realloc(notcovered, sizeof(Laik_Range) * notcovered_capacity);
+        if (!notcovered) {
+            laik_panic("Out of memory allocating memory for coversSpace");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+    }
     notcovered[notcovered_count] = *s;
     notcovered_count++;
 }
@@ -246,7 +251,9 @@ bool laik_rangelist_coversSpace(Laik_RangeList* list)
 
         int count = notcovered_count; // number of ranges to visit
         for(int j = 0; j < count; j++) {
-            Laik_Range* orig = &(notcovered[j]);
+            // use copy: appending may reallocate the list
+            Laik_Range origRange = notcovered[j];
+            Laik_Range* orig = &origRange;
 
             if (laik_range_intersect(orig, toRemove) == 0) {
                 // range to remove does not overlap with orig: keep original
-- 
2.43.0


From c2c5e2acbc97b65809aef0070dd787e4264da431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 15/80] fix: neutral elements for min/max reductions were
 exchanged

The neutral element of a minimum is the largest value, for a maximum
it is the smallest one.
---
 src/type.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/type.c b/src/type.c
index d55f755..7027f97 100644
--- a/src/type.c
+++ b/src/type.c
@@ -63,8 +63,8 @@ void laik_char_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT8_MIN; break;
-    case LAIK_RO_Max:  v = INT8_MAX; break;
+    case LAIK_RO_Min:  v = INT8_MAX; break;
+    case LAIK_RO_Max:  v = INT8_MIN; break;
     default:
         assert(0);
     }
@@ -139,8 +139,8 @@ void laik_uchar_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = 255; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT8_MAX; break;
+    case LAIK_RO_Min:  v = UINT8_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -214,8 +214,8 @@ void laik_int32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = INT32_MIN; break;
-    case LAIK_RO_Max:  v = INT32_MAX; break;
+    case LAIK_RO_Min:  v = INT32_MAX; break;
+    case LAIK_RO_Max:  v = INT32_MIN; break;
     default:
         assert(0);
     }
@@ -289,8 +289,8 @@ void laik_uint32_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0; break;
     case LAIK_RO_Prod: v = 1; break;
     case LAIK_RO_And:  v = ~0; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT32_MAX; break;
+    case LAIK_RO_Min:  v = UINT32_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -364,8 +364,8 @@ void laik_int64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = INT64_MIN; break;
-    case LAIK_RO_Max:  v = INT64_MAX; break;
+    case LAIK_RO_Min:  v = INT64_MAX; break;
+    case LAIK_RO_Max:  v = INT64_MIN; break;
     default:
         assert(0);
     }
@@ -439,8 +439,8 @@ void laik_uint64_init(void* base, int count, Laik_ReductionOperation o)
     case LAIK_RO_Or:   v = 0l; break;
     case LAIK_RO_Prod: v = 1l; break;
     case LAIK_RO_And:  v = ~0l; break;
-    case LAIK_RO_Min:  v = 0; break;
-    case LAIK_RO_Max:  v = UINT64_MAX; break;
+    case LAIK_RO_Min:  v = UINT64_MAX; break;
+    case LAIK_RO_Max:  v = 0; break;
     default:
         assert(0);
     }
@@ -512,8 +512,8 @@ void laik_double_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -DBL_MAX; break;
-    case LAIK_RO_Max:  v = DBL_MAX; break;
+    case LAIK_RO_Min:  v = DBL_MAX; break;
+    case LAIK_RO_Max:  v = -DBL_MAX; break;
     default:
         assert(0);
     }
@@ -575,8 +575,8 @@ void laik_float_init(void* base, int count, Laik_ReductionOperation o)
     switch(o) {
     case LAIK_RO_Sum:  v = 0.0; break;
     case LAIK_RO_Prod: v = 1.0; break;
-    case LAIK_RO_Min:  v = -FLT_MAX; break;
-    case LAIK_RO_Max:  v = FLT_MAX; break;
+    case LAIK_RO_Min:  v = FLT_MAX; break;
+    case LAIK_RO_Max:  v = -FLT_MAX; break;
     default:
         assert(0);
     }
-- 
2.43.0


From e5a378cb1b542acdc0d24fe6ae70134ab2859e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 16/80] fix: reductions without input use initialization of
 wrong type

---
 src/type.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/type.c b/src/type.c
index 7027f97..8775c24 100644
--- a/src/type.c
+++ b/src/type.c
@@ -159,7 +159,7 @@ void laik_uchar_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(unsigned char));
         else
-            laik_char_init(out, count, o);
+            laik_uchar_init(out, count, o);
         return;
     }
 
@@ -234,7 +234,7 @@ void laik_int32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int32_t));
         else
-            laik_char_init(out, count, o);
+            laik_int32_init(out, count, o);
         return;
     }
 
@@ -309,7 +309,7 @@ void laik_uint32_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint32_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint32_init(out, count, o);
         return;
     }
 
@@ -384,7 +384,7 @@ void laik_int64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(int64_t));
         else
-            laik_char_init(out, count, o);
+            laik_int64_init(out, count, o);
         return;
     }
 
@@ -459,7 +459,7 @@ void laik_uint64_reduce(void* out, const void* in1, const void* in2,
         else if (in2)
             memcpy(out, in2, count * sizeof(uint64_t));
         else
-            laik_char_init(out, count, o);
+            laik_uint64_init(out, count, o);
         return;
     }
 
-- 
2.43.0


From e20543c9b89b6a6e673e6e8a368392cc69441393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 17/80] fix: MPI sends may transfer data already modified by a
 reduction

Asynchronous sends must not be completed only after later rounds of the
action sequence, as these may change the data to be sent (eg. for
in-place reductions).
---
 src/backend-mpi.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 34669af..3eec64e 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -212,7 +212,8 @@ bool laik_mpi_log_action(Laik_Action* a)
 }
 
 // transformation: split send/recv actions into isend/irecv + wait
-// - replace send with isend and wait for completion at end
+// - replace send with isend and wait for completion at start of next round,
+//   as actions in later rounds may modify the sent data (eg. reductions)
 // - replace recv with irecv at begin and wait at original position
 bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
 {
@@ -220,19 +221,15 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
     assert(as->newActionCount == 0);
 
     unsigned int count = 0;
-    int maxround = 0;
     Laik_Action* a = as->action;
     for(unsigned int i = 0; i < as->actionCount; i++, a = nextAction(a)) {
-        if (a->round > maxround) maxround = a->round;
         if ((a->type == LAIK_AT_BufRecv) || (a->type == LAIK_AT_BufSend))
             count++;
     }
 
     if (count == 0) return false;
 
-    // add 2 new rounds: 0 and maxround+2
-    // - round 0 gets MpiReq and all MpiIrecv actions
-    // - round maxround+2 gets Waits from MpiISend actions
+    // add new round 0, which gets MpiReq and all MpiIrecv actions
 
     MPI_Request* buf = malloc(count * sizeof(MPI_Request));
     laik_mpi_addMpiReq(as, 0, count, buf);
@@ -245,7 +242,7 @@ bool laik_mpi_asyncSendRecv(Laik_ActionSeq* as)
             Laik_A_BufSend* aa = (Laik_A_BufSend*) a;
             laik_mpi_addMpiIsend(as, a->round + 1,
                                  aa->buf, aa->count, aa->to_rank, req_id);
-            laik_mpi_addMpiWait(as, maxround + 2, req_id);
+            laik_mpi_addMpiWait(as, a->round + 2, req_id);
             req_id++;
             break;
         }
-- 
2.43.0


From 666e08185961d6c5fc63ab19c274cc5d17a33e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 18/80] fix: crash on intersecting partitionings without own
 ranges

---
 src/partitioning.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 7c29e47..42cf2d7 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -161,6 +161,10 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
     assert(list->space->dims == 1); // TODO: only for 1d for now
 
     assert((tid >= 0) && (tid < (int) list->tid_count));
+
+    // install filter function, also if there is nothing to intersect with
+    sf->filter_func = idxfilter;
+
     // no own ranges?
     unsigned mycount = list->off[tid+1] - list->off[tid];
     if (mycount == 0) return;
@@ -180,9 +184,6 @@ void laik_rangefilter_add_idxfilter(Laik_RangeFilter* sf, Laik_RangeList* list,
 
     laik_log(1,"Set pfilter to intersection with %d ranges between [%lld;%lld[",
              par->len, (long long) par->from, (long long) par->to);
-
-    // install filter function
-    sf->filter_func = idxfilter;
 }
 
 
-- 
2.43.0


From f6c544a5d76991a790d0645395260070777a763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 19/80] fix: missing copy between mappings of the same
 reservation

Indexes may belong to different tags in the partitionings of a
reservation, and thus to different mappings.
---
 src/data.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data.c b/src/data.c
index b840ab6..6bf7d32 100644
--- a/src/data.c
+++ b/src/data.c
@@ -554,8 +554,7 @@ void copyMaps(Laik_Transition* t,
     assert(fromList != 0);
     assert(toList != 0);
 
-    // no copy required if we stay in same reservation
-    if ((fromList->res != 0) && (fromList->res == toList->res)) return;
+    bool sameReservation = (fromList->res != 0) && (fromList->res == toList->res);
 
     for(int i = 0; i < t->localCount; i++) {
         struct localTOp* op = &(t->local[i]);
@@ -574,6 +573,9 @@ void copyMaps(Laik_Transition* t,
             continue;
         }
 
+        // no copy required if we stay in same mapping of same reservation
+        if (sameReservation && (fromMap->start == toMap->start)) continue;
+
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
 
-- 
2.43.0


From f72e47415c17a9d661f432b93ad4162b00072951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:08 +0000
Subject: [PATCH 20/80] fix: wrong data with custom layouts in 1d and MPI

---
 include/laik/data.h |  3 +++
 src/action.c        | 14 ++++++--------
 src/layout_lex.c    |  5 +++++
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/laik/data.h b/include/laik/data.h
index ebf9c7f..17f9a88 100644
--- a/include/laik/data.h
+++ b/include/laik/data.h
@@ -368,6 +368,9 @@ void laik_layout_copy_gen(Laik_Range* range,
 // with innermost dim x, then y, z, fully covering given ranges
 Laik_Layout* laik_new_layout_lex(int n, Laik_Range* ranges);
 
+// is this a lexicographical layout?
+bool laik_layout_is_lex(Laik_Layout* l);
+
 // return stride for dimension <d> in lex layout mapping <n>
 uint64_t laik_layout_lex_stride(Laik_Layout* l, int n, int d);
 
diff --git a/src/action.c b/src/action.c
index 90b8892..eb9fc9c 100644
--- a/src/action.c
+++ b/src/action.c
@@ -1900,10 +1900,9 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
                 assert(aa->fromMapNo < tc->fromList->count);
             fromMap = tc->fromList ? &(tc->fromList->map[aa->fromMapNo]) : 0;
 
-            if (fromMap && (aa->range->space->dims == 1)) {
-                // mapping known and 1d: can use direct send/recv
-
-                // FIXME: this assumes lexicographical layout
+            if (fromMap && (aa->range->space->dims == 1) &&
+                fromMap->layout && laik_layout_is_lex(fromMap->layout)) {
+                // mapping known, 1d and lex layout: can use direct send/recv
                 from = aa->range->from.i[0] - fromMap->requiredRange.from.i[0];
                 to   = aa->range->to.i[0] - fromMap->requiredRange.from.i[0];
                 assert(from >= 0);
@@ -1947,10 +1946,9 @@ bool laik_aseq_flattenPacking(Laik_ActionSeq* as)
                 assert(aa->toMapNo < tc->toList->count);
             toMap = tc->toList ? &(tc->toList->map[aa->toMapNo]) : 0;
 
-            if (toMap && (aa->range->space->dims == 1)) {
-                // mapping known and 1d: can use direct send/recv
-
-                // FIXME: this assumes lexicographical layout
+            if (toMap && (aa->range->space->dims == 1) &&
+                toMap->layout && laik_layout_is_lex(toMap->layout)) {
+                // mapping known, 1d and lex layout: can use direct send/recv
                 from = aa->range->from.i[0] - toMap->requiredRange.from.i[0];
                 to   = aa->range->to.i[0] - toMap->requiredRange.from.i[0];
                 assert(from >= 0);
diff --git a/src/layout_lex.c b/src/layout_lex.c
index 0285dbc..6007d1a 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -56,6 +56,11 @@ Laik_Layout_Lex* laik_is_layout_lex(Laik_Layout* l)
     return 0; // not a lexicographical layout
 }
 
+bool laik_layout_is_lex(Laik_Layout* l)
+{
+    return laik_is_layout_lex(l) != 0;
+}
+
 // return map number whose ranges contains index <idx>
 static
 int section_lex(Laik_Layout* l, Laik_Index* idx)
-- 
2.43.0


From 43556421d1ab668e423e02477e42d6d49a8d3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:23 +0000
Subject: [PATCH 21/80] fix: provided memory was used for more than one mapping

---
 src/data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data.c b/src/data.c
index 6bf7d32..be9ee78 100644
--- a/src/data.c
+++ b/src/data.c
@@ -660,6 +660,10 @@ void checkMapReuse(Laik_MappingList* toList, Laik_MappingList* fromList)
             if (fromMap->base == 0) continue;
             if (fromMap->reusedFor >= 0) continue; // only reuse once
 
+            // provided memory already is used for first mapping
+            Laik_Data* d = toMap->data;
+            if ((i > 0) && d->map0_base && (fromMap->start == d->map0_base)) continue;
+
             // does new mapping fit into old?
             bool reuse = (toList->layout->reuse)(toList->layout, i, fromList->layout, sNo);
             if (!reuse) continue;
-- 
2.43.0


From 79b202e77a25abb194f61294acf4f25b4c69f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 22/80] fix: shorter value for a key in a KVS not recognized as
 change

---
 src/kvs.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index d42061c..8507243 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -371,7 +371,8 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     bool created;
     if (e) {
         if (e->value) {
-            if (memcmp(e->value, value, (size_t) size) == 0) {
+            if ((e->vlen == size) &&
+                (memcmp(e->value, value, (size_t) size) == 0)) {
                 laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
                          kvs->name, key, size, value);
                 return e;
-- 
2.43.0


From e97e1a5f8b2bd98d80f9140f1bbb79670a3e085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 23/80] fix: inconsistent binary values for a key in a KVS not
 detected

---
 src/kvs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kvs.c b/src/kvs.c
index 8507243..5aae2d2 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -243,7 +243,7 @@ void laik_kvs_changes_merge(Laik_KVS_Changes* dst,
             off2++;
         }
         else {
-            if ((e1->vlen != e2->vlen) || (strncmp(e1->value, e2->value, e1->vlen) != 0)) {
+            if ((e1->vlen != e2->vlen) || (memcmp(e1->value, e2->value, e1->vlen) != 0)) {
                 laik_log(LAIK_LL_Panic,
                          "Merging KV changes at key '%s': update inconsistency\n",
                          e1->key);
-- 
2.43.0


From d3968b83bccd9947dfc828334ddc9644d7eca078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 24/80] fix: MPI sync of KVS without changes aborts

---
 src/backend-mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend-mpi.c b/src/backend-mpi.c
index 3eec64e..c669890 100644
--- a/src/backend-mpi.c
+++ b/src/backend-mpi.c
@@ -1168,7 +1168,7 @@ static void laik_mpi_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || (count[1] > 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From a0b37bdf13395b51d6539d010891eccfea88aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 25/80] fix: KVS removals and repeated changes of a key not
 propagated

Zero-sized values (removed keys) and multiple journal entries for the
same key triggered assertions in sync. Build journal from changed
entries at sync time.
---
 src/kvs.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 5aae2d2..749d6ef 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -155,7 +155,7 @@ void laik_kvs_changes_add(Laik_KVS_Changes* c,
     c->dataUsed += klen;
     c->off[c->offUsed] = c->dataUsed;
     char* newdata = c->data + c->dataUsed;
-    memcpy(newdata, data, (size_t) dlen);
+    if (dlen > 0) memcpy(newdata, data, (size_t) dlen);
     c->dataUsed += dlen;
     c->off[c->offUsed + 1] = c->dataUsed;
     c->offUsed += 2;
@@ -202,7 +202,7 @@ void laik_kvs_changes_sort(Laik_KVS_Changes* c)
         c->entryUsed++;
 
         assert(c->off[off] < c->off[off + 1]); // key range
-        assert(c->off[off + 1] < c->off[off + 2]); // value range
+        assert(c->off[off + 1] <= c->off[off + 2]); // value range (empty: removed)
         assert(c->off[off + 2] <= c->dataUsed);
         // key must be terminated by 0
         assert(c->data[c->off[off + 1] - 1] == 0);
@@ -276,7 +276,12 @@ void laik_kvs_changes_apply(Laik_KVS_Changes* c, Laik_KVStore *kvs)
     assert(c->data != 0);
     for(int i = 0; i + 1 < c->offUsed; i += 2) {
         assert(c->off[i+1] > c->off[i]);
-        assert(c->off[i+2] > c->off[i+1]);
+        assert(c->off[i+2] >= c->off[i+1]);
+        if (c->off[i+2] == c->off[i+1]) {
+            // empty value: entry was removed
+            laik_kvs_remove(kvs, c->data + c->off[i]);
+            continue;
+        }
         laik_kvs_set(kvs,
                      c->data + c->off[i],
                      (unsigned)(c->off[i+2] - c->off[i+1]), // data size
@@ -333,8 +338,8 @@ static void remove_entry(Laik_KVStore* kvs, Laik_KVS_Entry* e)
     e->vlen = 0;
     e->data = 0;
 
-    if (!kvs->in_sync)
-        laik_kvs_changes_add(&(kvs->changes), e->key, 0, 0, true, false);
+    // change gets added to journal in laik_kvs_sync()
+    if (!kvs->in_sync) e->updated = true;
 }
 
 // remove all entries
@@ -351,7 +356,7 @@ void laik_kvs_clean(Laik_KVStore* kvs)
 bool laik_kvs_remove(Laik_KVStore* kvs, char* key)
 {
     Laik_KVS_Entry* e = laik_kvs_entry(kvs, key);
-    if (!e) return false;
+    if (!e || !e->value) return false; // not existing or already removed
     remove_entry(kvs, e);
     return true;
 }
@@ -428,9 +433,9 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     }
 
     if (kvs->in_sync) return e;
-    e->updated = true;
 
-    laik_kvs_changes_add(&(kvs->changes), key, size, value, true, false);
+    // change gets added to journal in laik_kvs_sync()
+    e->updated = true;
 
     return e;
 }
@@ -448,6 +453,13 @@ void laik_kvs_sync(Laik_KVStore* kvs)
     const Laik_Backend* b = kvs->inst->backend;
     assert(b && b->sync);
 
+    // fill change journal: one entry per changed key, empty value if removed
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        Laik_KVS_Entry* e = &(kvs->entry[i]);
+        if (!e->updated) continue;
+        laik_kvs_changes_add(&(kvs->changes), e->key, (int) e->vlen, e->value, true, false);
+    }
+
     laik_log(1, "sync KVS '%s' (progagating %d/%d entries) ...",
              kvs->name, kvs->changes.offUsed / 2, kvs->used);
     kvs->in_sync = true;
-- 
2.43.0


From 5322499c0e26afd1b00e598b0caf75029e3cbf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 26/80] fix: TCP2 sync of KVS with long or binary keys and
 values

Message buffers of 100 bytes overflowed, keys/values were truncated and
had to be printable strings, removal of entries was not propagated.
---
 src/backend-tcp2.c | 110 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 93 insertions(+), 17 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 934c43c..c48f183 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1308,6 +1308,69 @@ void got_allowsend(InstData* d, int lid, char* msg)
     d->exit = 1;
 }
 
+// encoding of keys/values for 'kvs data' commands: bytes which are not
+// printable, space, and '%' are sent as '%' followed by 2 hex digits
+
+// append encoding of <len> bytes at <src> to <dst>, return new end
+static
+char* kvs_encode(char* dst, char* src, int len)
+{
+    static const char hex[] = "0123456789abcdef";
+    for(int i = 0; i < len; i++) {
+        unsigned char c = (unsigned char) src[i];
+        if ((c > ' ') && (c < 127) && (c != '%')) {
+            *dst++ = (char) c;
+            continue;
+        }
+        *dst++ = '%';
+        *dst++ = hex[c >> 4];
+        *dst++ = hex[c & 15];
+    }
+    return dst;
+}
+
+// decode string in-place, return number of bytes (0 is appended)
+static
+int kvs_decode(char* str)
+{
+    char *src = str, *dst = str;
+    while(*src) {
+        unsigned int c;
+        if ((*src == '%') && (sscanf(src + 1, "%2x", &c) == 1)) {
+            *dst++ = (char) c;
+            src += 3;
+        }
+        else
+            *dst++ = *src++;
+    }
+    *dst = 0;
+    return (int) (dst - str);
+}
+
+// return 'kvs data' command for entry <e>, to be freed by caller
+static
+char* kvs_data_cmd(Laik_KVS_Entry* e)
+{
+    int klen = (int) strlen(e->key);
+    char* cmd = malloc(3 * (klen + e->vlen) + 12);
+    if (!cmd) {
+        laik_panic("Out of memory allocating KVS command");
+        exit(1); // not actually needed, laik_panic never returns
+    }
+    char* p = cmd + sprintf(cmd, "kvs data ");
+    p = kvs_encode(p, e->key, klen);
+    if (e->vlen > 0) {
+        *p++ = ' ';
+        p = kvs_encode(p, e->value, (int) e->vlen);
+    }
+    *p = 0;
+    if (p - cmd >= RBUF_LEN) {
+        laik_log(LAIK_LL_Panic, "TCP2 KVS entry '%s' too large", e->key);
+        exit(1);
+    }
+    return cmd;
+}
+
 void got_kvs_allow(InstData* d, int lid, char* msg)
 {
     if (lid != 0) {
@@ -1315,12 +1378,13 @@ void got_kvs_allow(InstData* d, int lid, char* msg)
         return;
     }
 
-    char cmd[21];
-    char name[30];
-    if (sscanf(msg, "%20s %29s", cmd, name) < 2) {
+    // name is rest of line
+    char* name = strchr(msg, ' ');
+    if (!name || (name[1] == 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse 'kvs allow' command '%s'; ignoring", msg);
         return;
     }
+    name++;
 
     laik_log(1, "TCP2 allowed to send changes for KVS '%s'", name);
     assert(d->kvs_name == 0);
@@ -1348,21 +1412,31 @@ void got_kvs_changes(InstData* d, int lid, char* msg)
 
 void got_kvs_data(InstData* d, int lid, char* msg)
 {
-    char cmd[21], key[31], value[101];
-    if (sscanf(msg, "%20s %30s %100[^\n]", cmd, key, value) < 3) {
+    // data <key> [<value>], with key/value encoded, no value if removed
+    char* key = strchr(msg, ' ');
+    if (!key || (key[1] == 0)) {
         laik_log(LAIK_LL_Warning, "cannot parse kvs data command '%s'; ignoring", msg);
         return;
     }
+    *key++ = 0;
+    char* value = strchr(key, ' ');
+    if (value) *value++ = 0;
+    kvs_decode(key);
+    int vlen = value ? kvs_decode(value) : 0;
 
-    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': '%s'", lid, key, value);
+    laik_log(1, "TCP2 got KVS data from LID %d for key '%s': %d bytes", lid, key, vlen);
     assert(d->kvs != 0);
     assert(d->kvs_changes > 0);
     assert(d->kvs_received < d->kvs_changes);
 
-    Laik_KVS_Entry* e = laik_kvs_sets(d->kvs, key, value);
+    if (vlen > 0)
+        laik_kvs_set(d->kvs, key, (unsigned) vlen, value);
+    else
+        laik_kvs_remove(d->kvs, key);
     // simply mark it as updated
     //  this may send unneeded updates, but we do not use change journal in TCP2
-    e->updated = true;
+    Laik_KVS_Entry* e = laik_kvs_entry(d->kvs, key);
+    if (e) e->updated = true;
 
     d->kvs_received++;
     if (d->kvs_received == d->kvs_changes)
@@ -2391,7 +2465,7 @@ void tcp2_exec(Laik_ActionSeq* as)
 
 void tcp2_sync(Laik_KVStore* kvs)
 {
-    char msg[100];
+    char msg[30], *cmd;
     InstData* d = (InstData*)instance->backend_data;
 
     int count = 0;
@@ -2419,9 +2493,9 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, 0, msg);
         for(unsigned int i = 0; i < kvs->used; i++) {
             if (!kvs->entry[i].updated) continue;
-            sprintf(msg, "kvs data %s %s",
-                    kvs->entry[i].key, kvs->entry[i].value);
-            send_cmd(d, 0, msg);
+            cmd = kvs_data_cmd(&(kvs->entry[i]));
+            send_cmd(d, 0, cmd);
+            free(cmd);
         }
         // all changes sent, remove own permission
         // (needs to be done here, as we may receive next allowance
@@ -2442,8 +2516,10 @@ void tcp2_sync(Laik_KVStore* kvs)
     // master
 
     for(int lid = 1; lid <= d->maxid; lid++) {
-        sprintf(msg, "kvs allow %s", kvs->name);
-        send_cmd(d, lid, msg);
+        cmd = malloc(strlen(kvs->name) + 11);
+        sprintf(cmd, "kvs allow %s", kvs->name);
+        send_cmd(d, lid, cmd);
+        free(cmd);
 
         // wait for changes from LID <lid>
         d->kvs_changes = -1;
@@ -2464,10 +2540,10 @@ void tcp2_sync(Laik_KVStore* kvs)
         send_cmd(d, lid, msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
-        sprintf(msg, "kvs data %s %s",
-                kvs->entry[i].key, kvs->entry[i].value);
+        cmd = kvs_data_cmd(&(kvs->entry[i]));
         for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, msg);
+            send_cmd(d, lid, cmd);
+        free(cmd);
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
             count, kvs->name);
-- 
2.43.0


From 114db2677f34721880779a977f8235308973fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:32 +0000
Subject: [PATCH 27/80] fix: TCP2 sync of KVS also done with removed processes

---
 src/backend-tcp2.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index c48f183..2a6d19e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2515,7 +2515,11 @@ void tcp2_sync(Laik_KVStore* kvs)
 
     // master
 
-    for(int lid = 1; lid <= d->maxid; lid++) {
+    // sync with processes in current world, others may be dead already
+    Laik_Group* world = kvs->inst->world;
+    for(int i = 0; i < world->size; i++) {
+        int lid = world->locationid[i];
+        if (lid == 0) continue;
         cmd = malloc(strlen(kvs->name) + 11);
         sprintf(cmd, "kvs allow %s", kvs->name);
         send_cmd(d, lid, cmd);
@@ -2536,13 +2540,15 @@ void tcp2_sync(Laik_KVStore* kvs)
     }
     laik_log(1, "TCP2 with %d merged changes", count);
     sprintf(msg, "kvs changes %d", count);
-    for(int lid = 1; lid <= d->maxid; lid++)
-        send_cmd(d, lid, msg);
+    for(int i = 0; i < world->size; i++)
+        if (world->locationid[i] > 0)
+            send_cmd(d, world->locationid[i], msg);
     for(unsigned int i = 0; i < kvs->used; i++) {
         if (!kvs->entry[i].updated) continue;
         cmd = kvs_data_cmd(&(kvs->entry[i]));
-        for(int lid = 1; lid <= d->maxid; lid++)
-            send_cmd(d, lid, cmd);
+        for(int j = 0; j < world->size; j++)
+            if (world->locationid[j] > 0)
+                send_cmd(d, world->locationid[j], cmd);
         free(cmd);
     }
     laik_log(1, "TCP2 synced %d changes for KVS %s",
-- 
2.43.0


From eaa951772a48519e80004adf605dc749975fbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 28/80] fix: abort on using cloned groups with MPI

---
 src/core.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/core.c b/src/core.c
index 4150c81..f078ef8 100644
--- a/src/core.c
+++ b/src/core.c
@@ -357,9 +357,10 @@ void laik_set_world(Laik_Instance* i, Laik_Group* newworld)
     i->epoch++;
 }
 
-// create a clone of <g>, derived from <g>
-// helper for laik_new_shrinked_group, does not call into backend to track new group
-Laik_Group* laik_clone_group(Laik_Group* g)
+// helper for laik_clone_group and laik_new_shrinked_group
+// does not call into backend to track new group
+static
+Laik_Group* clone_group(Laik_Group* g)
 {
     Laik_Group* g2 = laik_create_group(g->inst, g->size);
     g2->parent = g;
@@ -375,6 +376,18 @@ Laik_Group* laik_clone_group(Laik_Group* g)
     return g2;
 }
 
+// create a clone of <g>, derived from <g>
+Laik_Group* laik_clone_group(Laik_Group* g)
+{
+    Laik_Group* g2 = clone_group(g);
+
+    // allow the backend to track the new created group g2
+    if (g->inst->backend->updateGroup)
+        (g->inst->backend->updateGroup)(g2);
+
+    return g2;
+}
+
 // helpers for laik_new_union_group
 
 struct lididx
@@ -492,7 +505,7 @@ Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
 // Shrinking (collective)
 Laik_Group* laik_new_shrinked_group(Laik_Group* g, int len, int* list)
 {
-    Laik_Group* g2 = laik_clone_group(g);
+    Laik_Group* g2 = clone_group(g);
 
     for(int i = 0; i < g->size; i++)
         g2->fromParent[i] = 0; // init
-- 
2.43.0


From d94c199769a9a02539c78d22f4468822fa24c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:12 +0000
Subject: [PATCH 29/80] fix: forget map offsets of old process id in migrated
 range lists

---
 src/rangelist.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rangelist.c b/src/rangelist.c
index edd0237..82a55fc 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -708,4 +708,10 @@ void laik_rangelist_migrate(Laik_RangeList* list, int* idmap, unsigned int new_c
     list->tid_count = new_count;
     sortRanges(list);
     updateOffsets(list);
+
+    // map offsets were calculated for a process id of the old group
+    free(list->map_off);
+    list->map_off = 0;
+    list->map_count = 0;
+    list->map_tid = -1;
 }
-- 
2.43.0


From c237e1a17a077ea98cbb88ab69720b2fe4b87c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:54 +0000
Subject: [PATCH 30/80] fix: keep single-index partitionings in one mapping
 when migrated

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index 82a55fc..9a5ec44 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -536,7 +536,7 @@ static void updateOffsetsSI(Laik_RangeList* list)
 
         Laik_TaskRange_Gen* ts = &(list->trange[off]);
         ts->task = task;
-        ts->tag = 0;
+        ts->tag = 1; // not 0: all ranges go into one mapping, also after migration
         ts->mapNo = 0;
         ts->data = 0;
         ts->range.space = list->space;
-- 
2.43.0


From 4f03438fe1c4a70471e053410d9fdbb806fafc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:11 +0000
Subject: [PATCH 31/80] fix: TCP2: retry write interrupted by a signal

---
 src/backend-tcp2.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 2a6d19e..2fc7986 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -649,14 +649,17 @@ void send_cmd(InstData* d, int lid, char* cmd)
              cmd, len, lid, fd);
 
     // write cmd (cope with partial writes and errors)
-    int res, written = 0;
+    int res = 0, written = 0;
     while(written < len) {
         res = write(fd, cmd + written, len - written);
+        if ((res < 0) && (errno == EINTR)) continue;
         if (res < 0) break;
         written += res;
     }
     // send NL if not last char of cmd
-    if ((res >= 0) && (nlptr == 0)) while((res = write(fd, "\n", 1)) == 0);
+    if ((res >= 0) && (nlptr == 0))
+        while(((res = write(fd, "\n", 1)) == 0) ||
+              ((res < 0) && (errno == EINTR)));
 
     if (res < 0) {
         int e = errno;
@@ -679,9 +682,10 @@ void send_bin(InstData* d, int lid, char* buf, int len)
              len, lid, fd);
 
     // cope with partial writes and errors
-    int res, written = 0;
+    int res = 0, written = 0;
     while(written < len) {
         res = write(fd, buf + written, len - written);
+        if ((res < 0) && (errno == EINTR)) continue;
         if (res < 0) break;
         written += res;
     }
-- 
2.43.0


From ce6d4f00b88bb52e1c6c9d4fe9ac4251cbf9b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 32/80] fix: remove freed data containers from instance

---
 include/laik/core-internal.h |  1 +
 src/core.c                   | 11 +++++++++++
 src/data.c                   |  1 +
 3 files changed, 13 insertions(+)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 7b3d204..1ad9b70 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -117,6 +117,7 @@ void laik_addSpaceForInstance(Laik_Instance* inst, Laik_Space* s);
 void laik_removeSpaceFromInstance(Laik_Instance* inst, Laik_Space* s);
 
 void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d);
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d);
 
 // synchronize location strings via KVS among processes in current world
 void laik_sync_location(Laik_Instance *instance);
diff --git a/src/core.c b/src/core.c
index f078ef8..d1bea13 100644
--- a/src/core.c
+++ b/src/core.c
@@ -281,6 +281,17 @@ void laik_addDataForInstance(Laik_Instance* inst, Laik_Data* d)
     inst->data_count++;
 }
 
+void laik_removeDataFromInstance(Laik_Instance* inst, Laik_Data* d)
+{
+    for(int i = 0; i < inst->data_count; i++) {
+        if (inst->data[i] != d) continue;
+        inst->data_count--;
+        for(; i < inst->data_count; i++)
+            inst->data[i] = inst->data[i + 1];
+        return;
+    }
+}
+
 
 // create a group to be used in this LAIK instance
 Laik_Group* laik_create_group(Laik_Instance* i, int maxsize)
diff --git a/src/data.c b/src/data.c
index be9ee78..b0dfe5e 100644
--- a/src/data.c
+++ b/src/data.c
@@ -1627,6 +1627,7 @@ void laik_free(Laik_Data* d)
 {
     // TODO: free space, partitionings
 
+    laik_removeDataFromInstance(d->space->inst, d);
     free(d);
 }
 
-- 
2.43.0


From 93a4e1484b53d4217c182993763c295038fcbdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 33/80] fix: keep output streams if log file cannot be opened

---
 src/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 14e49a1..e89d590 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -88,8 +88,10 @@ void laik_log_init_internal()
         if(!laik_logfile){
             laik_log(LAIK_LL_Error, "Cannot Initialize File for print output.\n");
         }
-        stderr = laik_logfile;
-        stdout = laik_logfile;
+        else {
+            stderr = laik_logfile;
+            stdout = laik_logfile;
+        }
     }
 
 }
-- 
2.43.0


From d312b583002bfa86f027c8efbb4d51125c80faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 34/80] fix: do not close stdout/stderr of application in
 cleanup of logging

---
 src/logging.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index e89d590..d6c2c6c 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -130,8 +130,9 @@ void laik_log_cleanup(Laik_Instance* i)
 
     laik_log_flush(0);
 
+    // do not close: the application also uses it for stdout/stderr
     if (laik_logfile)
-        fclose(laik_logfile);
+        fflush(laik_logfile);
 }
 
 // reset start time for log output
-- 
2.43.0


From f28a88ff6db912418b578bd37de28507514cd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 35/80] fix: enlarge log buffer enough for appended text

---
 src/logging.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index d6c2c6c..707b0bd 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -226,7 +226,7 @@ void log_append(const char *format, va_list ap)
     // does it fit into buffer? (len is without terminating zero byte)
     if (len >= left) {
         int size = 2 * current_logSize;
-        if (size < len + 1) size = len + 1;
+        if (size < current_logPos + len + 1) size = current_logPos + len + 1;
         current_logBuffer = realloc(current_logBuffer, size);
         current_logSize = size;
         // printf("Enlarging log buffer to %d bytes ...\n", size);
-- 
2.43.0


From 29dd1597fd33901a5b2c1cf9a702427cc63d1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 36/80] fix: allow log messages with long lines without spaces

---
 src/logging.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 707b0bd..76620a8 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -282,7 +282,7 @@ void log_flush()
     counter++;
 
 #define LINE_LEN 100
-    // enough for prefix plus one line of log message
+    // enough for prefix of one line of log message
     static char buf2[150 + LINE_LEN];
     int off1 = 0, off, off2;
 
@@ -333,8 +333,7 @@ void log_flush()
         }
 
         // indent: add 4 spaces if this is continuation line
-        off2 += sprintf(buf2+off2, "%*s",
-                        at_newline ? spaces : spaces + 4, "");
+        int indent = at_newline ? spaces : spaces + 4;
 
         at_newline = false;
         off = off1;
@@ -357,13 +356,11 @@ void log_flush()
             off++;
         }
         if (buf1[off]) buf1[off++] = 0;
-        off2 += sprintf(buf2+off2, "%s\n", buf1 + off1);
-        off1 = off;
-
         assert(off2 < 150 + LINE_LEN);
 
         // TODO: allow to go to debug file
-        fprintf(stderr, "%s", buf2);
+        fprintf(stderr, "%s%*s%s\n", buf2, indent, "", buf1 + off1);
+        off1 = off;
     }
     current_logPos = 0;
 
-- 
2.43.0


From 7c1a9daf6c468c2edbd4ee1417584ad30b1def1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 37/80] fix: logging of single and custom reductions

---
 src/debug.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debug.c b/src/debug.c
index b10d07f..97c5019 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -118,6 +118,8 @@ void laik_log_Reduction(Laik_ReductionOperation op)
     case LAIK_RO_And:  laik_log_append("bitwise and"); break;
     case LAIK_RO_Or:   laik_log_append("bitwise or"); break;
     case LAIK_RO_Any:  laik_log_append("any"); break;
+    case LAIK_RO_Single: laik_log_append("single"); break;
+    case LAIK_RO_Custom: laik_log_append("custom"); break;
     default: assert(0);
     }
 }
-- 
2.43.0


From 7c328773b010d730a660edef477e5e115125d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 38/80] fix: do not write to profiling file which cannot be
 opened

---
 src/profiling.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/profiling.c b/src/profiling.c
index 48502c4..3a06240 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -189,6 +189,7 @@ void laik_enable_profiling_file(Laik_Instance* i, const char* filename)
     i->profiling->profile_file = fopen(filename, "a+");
     if (i->profiling->profile_file == NULL) {
         laik_log(LAIK_LL_Error, "Unable to start file based profiling");
+        return;
     }
 
     fprintf((FILE*)i->profiling->profile_file, "======MEASUREMENT START AT: %lu======\n", 
-- 
2.43.0


From fa6338d3a43f455b680bc565f239b1c3ba16d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 39/80] fix: profiling calls without active profiling instance

---
 src/profiling.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/profiling.c b/src/profiling.c
index 3a06240..bdec42f 100644
--- a/src/profiling.c
+++ b/src/profiling.c
@@ -106,6 +106,7 @@ double laik_wtime()
 // FIXME: should close any open file if output-to-file is enabled
 void laik_free_profiling(Laik_Instance* i)
 {
+    if (laik_profinst == i) laik_profinst = 0;
     free(i->profiling);
 }
 
@@ -250,6 +251,7 @@ void laik_close_profiling_file(Laik_Instance* i)
 // print arbitrary text to file in output-to-file mode
 void laik_profile_printf(const char* msg, ...)
 {
+    if (!laik_profinst) return;
     if (laik_profinst->profiling->profile_file) {
         va_list args;
         va_start(args, msg);
-- 
2.43.0


From 6ac9fcf4dd7bfcabe375780c93af337528d8e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 40/80] fix: logging of lexicographical layouts with many maps

---
 src/layout_lex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/layout_lex.c b/src/layout_lex.c
index 6007d1a..a4c8eb0 100644
--- a/src/layout_lex.c
+++ b/src/layout_lex.c
@@ -129,6 +129,11 @@ char* describe_lex(Laik_Layout* l)
                 l->dims, l->map_count);
     for(int i = 0; i < l->map_count; i++) {
         Lex_Entry* e = &(ll->e[i]);
+        if (o > 120) {
+            // no space for (up to 64 chars of) another entry
+            o += sprintf(s+o, ", ...");
+            break;
+        }
         o += sprintf(s+o, "%s%llu/%llu/%llu",
              (i == 0) ? "":", ",
              (unsigned long long) e->stride[0],
-- 
2.43.0


From cfe9d1b4a61c4131d0d79b3a1bafe943eae118b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 41/80] fix: TCP2: do not abort on transient errors accepting
 connections

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 2fc7986..9da447e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1738,6 +1738,12 @@ void got_connect(InstData* d, int fd)
     socklen_t len = sizeof(saddr);
     int newfd = accept(fd, &saddr, &len);
     if (newfd < 0) {
+        int e = errno;
+        if ((e == EINTR) || (e == EAGAIN) || (e == ECONNABORTED)) {
+            // transient: connection gone, or event loop will try again
+            laik_log(1, "TCP2 warning: accept on FD %d: %s\n", fd, strerror(e));
+            return;
+        }
         laik_panic("TCP2 Error in accept\n");
         exit(1);
     }
-- 
2.43.0


From 067c89f69ca3cd48aa48fa9128691fc5f72ee109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 42/80] fix: TCP2: space for addresses of IPv6 connections

---
 src/backend-tcp2.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 9da447e..4ae1fe5 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1734,9 +1734,9 @@ void got_bytes(InstData* d, int fd)
 
 void got_connect(InstData* d, int fd)
 {
-    struct sockaddr saddr;
+    struct sockaddr_storage saddr;
     socklen_t len = sizeof(saddr);
-    int newfd = accept(fd, &saddr, &len);
+    int newfd = accept(fd, (struct sockaddr*) &saddr, &len);
     if (newfd < 0) {
         int e = errno;
         if ((e == EINTR) || (e == EAGAIN) || (e == ECONNABORTED)) {
@@ -1751,11 +1751,11 @@ void got_connect(InstData* d, int fd)
     add_rfd(d, newfd, got_bytes);
     d->fds[newfd].state = PS_Unknown;
 
-    char str[20];
-    if (saddr.sa_family == AF_INET)
-        inet_ntop(AF_INET, &(((struct sockaddr_in*)&saddr)->sin_addr), str, 20);
-    if (saddr.sa_family == AF_INET6)
-        inet_ntop(AF_INET6, &(((struct sockaddr_in6*)&saddr)->sin6_addr), str, 20);
+    char str[INET6_ADDRSTRLEN] = "";
+    if (saddr.ss_family == AF_INET)
+        inet_ntop(AF_INET, &(((struct sockaddr_in*)&saddr)->sin_addr), str, sizeof(str));
+    if (saddr.ss_family == AF_INET6)
+        inet_ntop(AF_INET6, &(((struct sockaddr_in6*)&saddr)->sin6_addr), str, sizeof(str));
     laik_log(1, "TCP2 Got connection on FD %d from %s\n", newfd, str);
 
     char msg[100];
-- 
2.43.0


From 2602ac5660f248620bf6f41ee5e60bae71e9b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:54 +0000
Subject: [PATCH 43/80] fix: logging of KVS values not terminated by zero

---
 src/kvs.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kvs.c b/src/kvs.c
index 749d6ef..652588a 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -378,8 +378,8 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
         if (e->value) {
             if ((e->vlen == size) &&
                 (memcmp(e->value, value, (size_t) size) == 0)) {
-                laik_log(1, "KVS '%s': entry '%s' (size %d, '%.20s') already existing",
-                         kvs->name, key, size, value);
+                laik_log(1, "KVS '%s': entry '%s' (size %d, '%.*s') already existing",
+                         kvs->name, key, size, (size < 20) ? (int) size : 20, value);
                 return e;
             }
             free(e->value);
@@ -420,14 +420,14 @@ Laik_KVS_Entry* laik_kvs_set(Laik_KVStore* kvs, char* key, unsigned int size, ch
     e->vlen = size;
 
     if (created) {
-        laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.20s'",
-                 kvs->name, key, size, value);
+        laik_log(1, "KVS '%s': set new entry '%s' (size %d) to '%.*s'",
+                 kvs->name, key, size, (size < 20) ? (int) size : 20, value);
 
         if (kvs->in_sync && kvs->created_func) (kvs->created_func)(kvs, e);
     }
     else {
-        laik_log(1, "KVS '%s': changed entry '%s' (size %d) to '%.20s'",
-                 kvs->name, key, size, value);
+        laik_log(1, "KVS '%s': changed entry '%s' (size %d) to '%.*s'",
+                 kvs->name, key, size, (size < 20) ? (int) size : 20, value);
 
         if (kvs->in_sync && kvs->changed_func) (kvs->changed_func)(kvs, e);
     }
-- 
2.43.0


From b682813a188330b0076f4876b60599b2c1ea6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 44/80] fix: TCP2: do not abort if a not registered client is
 gone

---
 src/backend-tcp2.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 4ae1fe5..5256b11 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -663,8 +663,9 @@ void send_cmd(InstData* d, int lid, char* cmd)
 
     if (res < 0) {
         int e = errno;
-        laik_log(LAIK_LL_Panic, "TCP2 write error on FD %d: %s\n",
-                 fd, strerror(e));
+        // only fatal if receiver is part of the computation
+        laik_log((lid < 0) ? LAIK_LL_Warning : LAIK_LL_Panic,
+                 "TCP2 write error on FD %d: %s\n", fd, strerror(e));
     }
 }
 
-- 
2.43.0


From 10b5aaed2f3c02a545c88d83a8f0a18430c19680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 45/80] fix: TCP2: early cutoff commands abort or get lost

---
 src/backend-tcp2.c | 50 +++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 5256b11..0de7e07 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -210,7 +210,6 @@ static Laik_Instance* instance = 0;
 typedef enum _PeerState {
     PS_Invalid = 0,
     PS_Unknown,        // accepted connection, may be active peer or not registered
-    PS_CutoffReceived, // peer/master: cutoff command received, queued
     PS_BeforeReg,      // peer/master: about to register
     PS_RegReceived,    // master peer: received registration request, not yet processed
     PS_RegReceived2,   // master peer: received registration request, in wait queue
@@ -301,6 +300,10 @@ struct _InstData {
     int kvs_changes; // number of changes expected
     int kvs_received; // counter for incoming changes
 
+    // cutoff commands received by master in startup, to be replayed
+    int early_cutoffs;
+    char** early_cutoff;
+
     int init_wsize;   // for master in startup: initial world size
     int peers;        // number of known peers (= valid entries in peer entry)
     int readyPeers;   // number of peers in Ready state (including ReadyRemove)
@@ -361,10 +364,6 @@ char* get_statestring(PeerState st)
         // accepted connection, may be active peer or not registered
         return "unknown";
 
-    case PS_CutoffReceived:
-        // master/peer: received cutoff request, in wait queue
-        return "cutoff command queued, waiting";
-
     case PS_BeforeReg:
         // peer/master: about to register
         return "about to register";
@@ -966,18 +965,25 @@ void got_cutoff(InstData* d, int fd, char* msg)
 {
     // cutoff <location pattern>
 
-    if (instance == 0) {
-        // no instance yet to queue remove requests, need to replay
-        assert(d->fds[fd].cmd == 0);
+    (void) fd;
 
-        d->fds[fd].state = PS_CutoffReceived;
-        d->fds[fd].cmd = strdup(msg);
-        laik_log(1, "TCP2 queued for later processing: '%s'", msg);
+    if (d->mylid != 0) {
+        laik_log(LAIK_LL_Warning, "got cutoff, but not master; ignoring");
         return;
     }
 
-    if (d->mylid > 0) {
-        laik_log(LAIK_LL_Warning, "got cutoff, but not master; ignoring");
+    if (instance == 0) {
+        // no instance yet to queue remove requests, need to replay
+        // there may be multiple, and connections may be closed until then
+        char** early = realloc(d->early_cutoff,
+                               (d->early_cutoffs + 1) * sizeof(char*));
+        if (!early) {
+            laik_panic("TCP2 Out of memory queuing cutoff command");
+            exit(1); // not actually needed, laik_panic never returns
+        }
+        d->early_cutoff = early;
+        d->early_cutoff[d->early_cutoffs++] = strdup(msg);
+        laik_log(1, "TCP2 queued for later processing: '%s'", msg);
         return;
     }
 
@@ -1779,6 +1785,8 @@ InstData* new_inst_data(char* host, char* location)
         laik_panic("TCP2 Out of memory allocating InstData object");
         exit(1); // not actually needed, laik_panic never returns
     }
+    d->early_cutoffs = 0;
+    d->early_cutoff = 0;
     d->init_wsize = -1; // unknown initial world size
     d->peers = 0; // zero known peers
     d->readyPeers = 0; // zero ready peers
@@ -2573,6 +2581,14 @@ void tcp2_make_progress()
     InstData* d = (InstData*)instance->backend_data;
     check_loop(d);
 
+    // replay cutoff commands received in startup
+    for(int i = 0; i < d->early_cutoffs; i++) {
+        laik_log(1, "TCP2 make progress: replay cutoff '%s'", d->early_cutoff[i]);
+        got_cutoff(d, -1, d->early_cutoff[i]);
+        free(d->early_cutoff[i]);
+    }
+    d->early_cutoffs = 0;
+
     // collect register requests into join list
     // make sure to do this only once: change state
     for(int fd = 0; fd < MAX_FDS; fd++) {
@@ -2581,14 +2597,6 @@ void tcp2_make_progress()
                 d->fds[fd].state = PS_RegReceived2;
                 laik_add_join_req(instance, &(d->fds[fd]));
                 break;
-            case PS_CutoffReceived:
-                // replay
-                laik_log(1, "TCP2 make progress: replay cutoff '%s' from FD %d",
-                        d->fds[fd].cmd, fd);
-                got_cutoff(d, fd, d->fds[fd].cmd);
-                free(d->fds[fd].cmd);
-                d->fds[fd].cmd = 0;
-                break;
             default:
                 break;
         }
-- 
2.43.0


From 7e25ff417fbde713b86c9a0cffaa72d63deade52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 46/80] fix: TCP2: abort if removal of a process is requested
 twice

---
 src/backend-tcp2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 0de7e07..2121631 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2762,9 +2762,9 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
             }
             else {
                 Peer* peer = (Peer*) req->backend_data;
+                // removal may be requested multiple times
+                if (peer->state != PS_InResize) continue;
                 laik_log(1, "TCP2 resize: remove process '%s'", peer->location);
-                // expected to be active
-                assert(peer->state == PS_InResize);
                 peer->state = PS_InResizeRemove;
             }
         }
-- 
2.43.0


From be4931859d9818e6ad6c9271ec296ff4dbb21ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 47/80] fix: TCP2: abort if a client waiting to join
 disconnects

---
 src/backend-tcp2.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 2121631..a91ed2f 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -476,6 +476,8 @@ void rm_rfd(InstData* d, int fd)
     d->fds[fd].state = PS_Invalid;
     free(d->fds[fd].rbuf);
     d->fds[fd].rbuf = 0;
+    free(d->fds[fd].cmd);
+    d->fds[fd].cmd = 0;
 }
 
 // run event loop until an event handler asks to exit
@@ -2750,9 +2752,9 @@ Laik_Group* tcp2_resize(Laik_ResizeRequests* resizeReqs)
                 FDState* fds = (FDState*) req->backend_data;
                 int fd = fds - d->fds;
                 assert(&(d->fds[fd]) == fds);
-                assert(fds->state == PS_RegReceived2);
-                assert(fds->lid < 0);
-                assert(fds->cmd);
+                // connection may have been closed since the request
+                if ((fds->state != PS_RegReceived2) || (fds->lid >= 0) || !fds->cmd)
+                    continue;
 
                 laik_log(1, "TCP2 resize: replay join req '%s' from FD %d",
                         fds->cmd, fd);
-- 
2.43.0


From 2f781fc86474999a0a534efe3cfa6f54e9e761ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 48/80] fix: resize requests arriving during a resize get lost

---
 src/core.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core.c b/src/core.c
index d1bea13..de19c48 100644
--- a/src/core.c
+++ b/src/core.c
@@ -592,9 +592,8 @@ Laik_Group* laik_allow_world_resize(Laik_Instance* instance, int phase)
                        jcount, rcount);
     }
 
+    // backend removes the requests it processed
     Laik_Group* g = (instance->backend->resize)(reqs);
-    if (reqs)
-        reqs->used = 0;
 
     if (g) {
         laik_set_world(instance, g);
-- 
2.43.0


From f912dd8757ed3d7ded53f156a25c870c0e24cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 49/80] fix: abort with more than 100 resize requests

---
 src/core.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core.c b/src/core.c
index de19c48..8a2d2ee 100644
--- a/src/core.c
+++ b/src/core.c
@@ -636,7 +636,10 @@ void laik_add_resize_req(Laik_Instance* instance, bool is_join_req, void* backen
     }
 
     Laik_ResizeRequests* reqs = instance->resizeRequests;
-    assert(reqs->used < reqs->size);
+    if (reqs->used == reqs->size) {
+        laik_log(LAIK_LL_Warning, "too many resize requests; ignoring");
+        return;
+    }
     reqs->req[reqs->used].is_join_req = is_join_req;
     reqs->req[reqs->used].backend_data = backend_data;
     reqs->used++;
-- 
2.43.0


From 6110cfdb966c60dc9e9b92623ec33706fc387a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 50/80] fix: TCP2: buffer overflow creating the world group of
 newcomers

---
 src/backend-tcp2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index a91ed2f..4784ac1 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -2121,7 +2121,8 @@ Laik_Instance* laik_init_tcp2(int* argc, char*** argv)
     world_size -= remove;
 
     // create initial world group
-    Laik_Group* world = laik_create_group(instance, world_size);
+    // (arrays also hold indexes for processes about to be removed)
+    Laik_Group* world = laik_create_group(instance, world_size + remove);
     world->size = world_size;
     if (old == 0) {
         // we are part of initial processes: no parent
-- 
2.43.0


From 9dabebf8883fb2fec7876b01a7478ea63b4fc3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 51/80] fix: TCP2: busy loop on broken connections

---
 src/backend-tcp2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 4784ac1..d41cc2e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1697,7 +1697,8 @@ void got_bytes(InstData* d, int fd)
         int e = errno;
         laik_log(1, "TCP2 warning: read error on FD %d: %s\n",
                  fd, strerror(e));
-        return;
+        if ((e == EINTR) || (e == EAGAIN)) return;
+        len = 0; // broken: handle as closed
     }
     if (len == 0) {
         // other side closed connection
-- 
2.43.0


From 5bcebe61a09c7608f05cdbdd2b3738493c661e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 52/80] fix: TCP2: use of freed receive buffer after quit
 command

---
 src/backend-tcp2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index d41cc2e..b42569e 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1657,7 +1657,7 @@ void process_rbuf(InstData* d, int fd)
 
         if (rbuf[pos2] == 4) { // Ctrl+D: same as "quit"
             got_cmd(d, fd, "quit", 5);
-            pos1 = pos2+1;
+            return; // connection closed
         }
         if (rbuf[pos2] == 13) {
             // change CR to whitespace (sent by telnet)
@@ -1666,6 +1666,7 @@ void process_rbuf(InstData* d, int fd)
         if (rbuf[pos2] == '\n') {
             rbuf[pos2] = 0;
             got_cmd(d, fd, rbuf + pos1, pos2 - pos1);
+            if (fds->rbuf == 0) return; // connection closed by command
             pos1 = pos2+1;
         }
         pos2++;
@@ -1708,6 +1709,7 @@ void got_bytes(InstData* d, int fd)
             rbuf[used] = '\n';
             d->fds[fd].rbuf_used++;
             process_rbuf(d, fd);
+            if (d->fds[fd].cb == 0) return; // already closed by command
         }
 
         int lid = d->fds[fd].lid;
-- 
2.43.0


From 4bd394b4b0e66217e74476f7f5851f43c38e6d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 53/80] fix: TCP2: do not abort on too long commands of unknown
 clients

---
 src/backend-tcp2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index b42569e..1453bc3 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1686,6 +1686,12 @@ void got_bytes(InstData* d, int fd)
     assert((fd >= 0) && (fd < MAX_FDS));
     int used = d->fds[fd].rbuf_used;
 
+    if ((used == RBUF_LEN) && (d->fds[fd].lid < 0)) {
+        laik_log(LAIK_LL_Warning, "command from unknown sender too long; closing connection");
+        close(fd);
+        rm_rfd(d, fd);
+        return;
+    }
     if (used == RBUF_LEN) {
         // buffer not large enough for even 1 command: should not happen
         laik_panic("TCP2 receive buffer too small for 1 command");
-- 
2.43.0


From 906e90ea927454d80a080da21365f77a2742131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 54/80] fix: TCP2: binary data from unknown clients accesses
 invalid memory

---
 src/backend-tcp2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 1453bc3..2439b5c 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -702,6 +702,11 @@ int got_binary_data(InstData* d, int lid, char* buf, int len)
 {
     laik_log(1, "TCP2 got binary data (from LID %d, len %d)", lid, len);
 
+    if (lid < 0) {
+        laik_log(LAIK_LL_Warning, "TCP2 ignoring data from unknown sender");
+        return len;
+    }
+
     Peer* p = &(d->peer[lid]);
     if ((p->rcount == 0) || (p->rcount == p->roff)) {
         laik_log(LAIK_LL_Warning, "TCP2 ignoring data from LID %d without send permission", lid);
-- 
2.43.0


From 9206f9435d85dfe513b90e7bbafe0cc0eb629e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 55/80] fix: TCP2: do not abort on myid command with unknown id

---
 src/backend-tcp2.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 2439b5c..fd5f77f 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -950,15 +950,18 @@ void got_myid(InstData* d, int fd, int lid, char* msg)
         return;
     }
 
+    // must already be known, announced by master
+    if ((peerid < 0) || (peerid > d->maxid) || (d->peer[peerid].location == 0)) {
+        laik_log(LAIK_LL_Warning, "got unknown ID %d; ignoring", peerid);
+        return;
+    }
+
     lid = peerid;
-    assert((lid >= 0) && (lid < MAX_PEERS));
-    assert(lid <= d->maxid);
+    assert(lid < MAX_PEERS);
     d->peer[lid].fd = fd;
     assert(fd >= 0);
     d->fds[fd].lid = lid;
 
-    // must already be known, announced by master
-    assert(d->peer[lid].location != 0);
     assert(d->peer[lid].host != 0);
     assert(d->peer[lid].port >= 0);
 
-- 
2.43.0


From eb851ea0cc3df8a3c14986306b8ea137432a16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 56/80] fix: TCP2: status command aborts or overflows buffer

---
 src/backend-tcp2.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index fd5f77f..bf7a1bb 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1103,7 +1103,9 @@ void got_status(InstData* d, int fd, int lid)
 
     send_cmd(d, lid, "# Known peers:");
     for(int i = 0; i <= d->maxid; i++) {
-        sprintf(msg, "#  LID%2d loc '%s' at host '%s' port %d flags %c", i,
+        // no info about this process received (yet)
+        if ((i != d->mylid) && (d->peer[i].state == PS_Invalid)) continue;
+        snprintf(msg, sizeof(msg), "#  LID%2d loc '%s' at host '%s' port %d flags %c", i,
                     d->peer[i].location, d->peer[i].host, d->peer[i].port,
                     d->peer[i].accepts_bin_data ? 'b':'-');
         send_cmd(d, lid, msg);
@@ -1128,7 +1130,7 @@ void got_status(InstData* d, int fd, int lid)
                 get_statestring(d->fds[i].state));
         send_cmd(d, lid, msg);
         if (d->fds[i].cmd) {
-            sprintf(msg, "#        queued for processing: '%s'", d->fds[i].cmd);
+            snprintf(msg, sizeof(msg), "#        queued for processing: '%s'", d->fds[i].cmd);
             send_cmd(d, lid, msg);
         }
     }
-- 
2.43.0


From 5ea6433e4df9648165064c387de3e460c462698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:34 +0000
Subject: [PATCH 57/80] fix: TCP2: do not execute a command cut off by a broken
 connection

When reading fails, the start of a command already received may be
incomplete: drop it instead of executing it (e.g. a "cutoff" request
would use a truncated pattern, removing other processes).
---
 src/backend-tcp2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index bf7a1bb..1170fee 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1715,7 +1715,9 @@ void got_bytes(InstData* d, int fd)
         laik_log(1, "TCP2 warning: read error on FD %d: %s\n",
                  fd, strerror(e));
         if ((e == EINTR) || (e == EAGAIN)) return;
-        len = 0; // broken: handle as closed
+        // broken: handle as closed, without executing an incomplete command
+        d->fds[fd].rbuf_used = used = 0;
+        len = 0;
     }
     if (len == 0) {
         // other side closed connection
-- 
2.43.0


From e7452d030785b63dfcfc9b561bc7ff75d52fa063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:46 +0000
Subject: [PATCH 58/80] fix: location synchronization after growth of the world

The array for location strings was sized at the first sync only, such
that a sync after processes joined wrote beyond it, and newly joined
processes never got to know locations synced before.
---
 include/laik/core-internal.h |  3 ++-
 src/core.c                   | 25 ++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/laik/core-internal.h b/include/laik/core-internal.h
index 1ad9b70..2d7da46 100644
--- a/include/laik/core-internal.h
+++ b/include/laik/core-internal.h
@@ -74,9 +74,10 @@ struct _Laik_Instance {
 
     // KV store for exchanging location information
     Laik_KVStore* locationStore;
-    // direct access to synchronized location strings (array of size <size>)
+    // direct access to synchronized location strings (of size <synced_locations>)
     // null if not synced yet; for removed processes entries are null
     char** location;
+    int synced_locations;
 
     // KV stores for LAIK objects
     Laik_KVStore* spaceStore;
diff --git a/src/core.c b/src/core.c
index 8a2d2ee..69b7e81 100644
--- a/src/core.c
+++ b/src/core.c
@@ -219,6 +219,7 @@ Laik_Instance* laik_new_instance(const Laik_Backend* b,
 
     instance->locationStore = 0;
     instance->location = 0; // set at location sync
+    instance->synced_locations = 0;
 
     instance->spaceStore = 0;
 
@@ -694,17 +695,27 @@ static void remove_location(Laik_KVStore* s, char* key)
 // TODO: only sync new locations after growth of instance
 void laik_sync_location(Laik_Instance *instance)
 {
+    bool resend = false;
     if (instance->locationStore == NULL) {
         instance->locationStore = laik_kvs_new("location", instance);
-        instance->location = (char**) malloc((unsigned)instance->locations * sizeof(char*));
-        assert(instance->location != 0);
-        for(int i = 0; i < instance->locations; i++)
-            instance->location[i] = 0;
 
         // register function to update direct access to location
         laik_kvs_reg_callbacks(instance->locationStore,
                                update_location, update_location, remove_location);
     }
+    else if (instance->synced_locations < instance->locations) {
+        // new processes do not know locations sent before
+        resend = true;
+    }
+
+    if (instance->synced_locations < instance->locations) {
+        instance->location = (char**) realloc(instance->location,
+                                              (unsigned)instance->locations * sizeof(char*));
+        assert(instance->location != 0);
+        for(int i = instance->synced_locations; i < instance->locations; i++)
+            instance->location[i] = 0;
+        instance->synced_locations = instance->locations;
+    }
 
     Laik_Group* world = laik_world(instance);
     char* mylocation = laik_mylocation(instance);
@@ -713,7 +724,8 @@ void laik_sync_location(Laik_Instance *instance)
     instance->location[mylocationid] = mylocation;
 
     char* myKey = locationkey(mylocationid);
-    laik_kvs_sets(instance->locationStore, myKey, mylocation);
+    Laik_KVS_Entry* e = laik_kvs_sets(instance->locationStore, myKey, mylocation);
+    if (resend) e->updated = true;
     laik_kvs_sync(instance->locationStore);
 }
 
@@ -725,6 +737,9 @@ char* laik_group_location(Laik_Group *group, int id)
 
     int lid = laik_group_locationid(group, id);
     assert(lid >= 0 && lid < group->inst->locations);
+    if (lid >= group->inst->synced_locations)
+        return NULL; // joined after last sync
+
     return group->inst->location[lid];
 }
 
-- 
2.43.0


From c85414dd6f352391e457672ef8f29c76a8949b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:14 +0000
Subject: [PATCH 59/80] fix: TCP2: do not abort when a register command is
 received twice

A client may send another register command before the first one is
processed at the next resize.
---
 src/backend-tcp2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 1170fee..8c46934 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -853,7 +853,10 @@ void got_register(InstData* d, int fd, int lid, char* msg)
     if ((d->mystate != PS_InStartup) &&
         (d->mystate != PS_InResize1)) {
         // after startup: process later in resize()
-        assert(d->fds[fd].cmd == 0);
+        if (d->fds[fd].cmd != 0) {
+            laik_log(LAIK_LL_Warning, "already waiting for registration; ignoring '%s'", msg);
+            return;
+        }
 
         d->fds[fd].state = PS_RegReceived;
         d->fds[fd].cmd = strdup(msg);
-- 
2.43.0


From 63cdc96c7a887481225261fa72c10a3985c8832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:46 +0000
Subject: [PATCH 60/80] fix: space store: buffer too small for spaces with
 large bounds

A serialized 3d space may need up to 129 bytes.
---
 src/space.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index f337c11..b727a0f 100644
--- a/src/space.c
+++ b/src/space.c
@@ -416,7 +416,8 @@ void laik_set_space_name(Laik_Space* s, char* n)
 
 char* laik_space_serialize(Laik_Space* s, unsigned* psize)
 {
-    static char buf[100];
+    // longest: 3d space with 6 numbers of up to 20 characters
+    static char buf[150];
 
     int off = -1;
     if (s->dims == 1)
-- 
2.43.0


From a28bc5758a3761426705ec0c96979bf7b6c2a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 61/80] fix: release the name of an action sequence

---
 src/action.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/action.c b/src/action.c
index eb9fc9c..6086910 100644
--- a/src/action.c
+++ b/src/action.c
@@ -112,6 +112,7 @@ void laik_aseq_free(Laik_ActionSeq* as)
     free(as->action);
     free(as->newAction);
 
+    free(as->name);
     free(as);
 }
 
-- 
2.43.0


From abfb3ac987a12bbe670e8cedd0a57d84f3738626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 62/80] fix: reuse an existing union group with the same
 parents

---
 src/core.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core.c b/src/core.c
index 69b7e81..8f16dfd 100644
--- a/src/core.c
+++ b/src/core.c
@@ -461,6 +461,17 @@ Laik_Group* laik_new_union_group(Laik_Group* g1, Laik_Group* g2)
         return g2;
     }
 
+    // the same union may have been created before (e.g. for an earlier switch)
+    for(int i = 0; i < g1->inst->group_count; i++) {
+        Laik_Group* g = g1->inst->group[i];
+        if ((g->parent == g1) && (g->parent2 == g2)) {
+            free(li_array);
+            laik_log(1, "union group of %d + %d: already existing as %d",
+                     g1->gid, g2->gid, g->gid);
+            return g;
+        }
+    }
+
     Laik_Group* g = laik_create_group(g1->inst, lids);
     g->size = lids;
     g->myid = -1;
-- 
2.43.0


From 0911a4783cf5e588c768422e3936b2e25e4d4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 63/80] fix: memory of data containers, reservations and
 transitions of switches not released

---
 src/data.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/data.c b/src/data.c
index b0dfe5e..73834c3 100644
--- a/src/data.c
+++ b/src/data.c
@@ -214,7 +214,9 @@ void laik_data_set_name(Laik_Data* d, char* n)
 {
     laik_log(1, "data '%s' renamed to '%s'", d->name, n);
 
-    d->name = n;
+    char* name = strdup(n);
+    free(d->name);
+    d->name = name;
 }
 
 // get space used for data
@@ -963,6 +965,8 @@ void laik_reservation_free(Laik_Reservation* r)
     laik_log(1, "reservation '%s' (data '%s'): freed %llu bytes\n",
                  r->name, r->data->name, (unsigned long long) bytesFreed);
                 
+    free(r->entry);
+    free(r->name);
     free(r);
 }
 
@@ -1336,6 +1340,9 @@ void laik_switchto_partitioning(Laik_Data* d,
         laik_partitioning_migrate(toP, toGroup);
     }
 
+    // transition was just calculated for this switch
+    laik_free_transition(t);
+
     // set new mapping/partitioning active
     d->activePartitioning = toP;
     d->activeMappings = toList;
@@ -1628,6 +1635,13 @@ void laik_free(Laik_Data* d)
     // TODO: free space, partitionings
 
     laik_removeDataFromInstance(d->space->inst, d);
+
+    // mappings of a reservation are freed together with the reservation
+    if (d->activeMappings && (d->activeMappings->res == 0))
+        freeMappingList(d->activeMappings, d->stat);
+
+    free(d->stat);
+    free(d->name);
     free(d);
 }
 
-- 
2.43.0


From 1eb38d179811d13724b10866e89dc6d1a1f1cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 64/80] fix: entries of a key-value store not released

---
 src/kvs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kvs.c b/src/kvs.c
index 652588a..5ffe0c6 100644
--- a/src/kvs.c
+++ b/src/kvs.c
@@ -321,6 +321,10 @@ void laik_kvs_free(Laik_KVStore* kvs)
 {
     assert(kvs);
 
+    for(unsigned int i = 0; i < kvs->used; i++) {
+        free(kvs->entry[i].key);
+        free(kvs->entry[i].value);
+    }
     free(kvs->entry);
     laik_kvs_changes_free(&(kvs->changes));
     free(kvs);
-- 
2.43.0


From db0c451c0a82852471eedff9f7ab2a44700e3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 65/80] fix: range lists of a partitioning not released
 completely

---
 src/partitioning.c | 6 +++++-
 src/rangelist.c    | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partitioning.c b/src/partitioning.c
index 42cf2d7..5551e3d 100644
--- a/src/partitioning.c
+++ b/src/partitioning.c
@@ -297,9 +297,12 @@ void laik_free_partitioning(Laik_Partitioning* p)
 {
     RangeList_Entry* e = p->rangeList;
     while(e) {
+        RangeList_Entry* next = e->next;
         laik_rangelist_free(e->ranges);
-        e = e->next;
+        free(e);
+        e = next;
     }
+    free(p->name);
     free(p);
 }
 
@@ -743,5 +746,6 @@ Laik_TaskRange* laik_my_range_3d(Laik_Partitioning* p, int n,
 // give an access phase a name, for debug output
 void laik_partitioning_set_name(Laik_Partitioning* p, char* n)
 {
+    free(p->name);
     p->name = strdup(n);
 }
diff --git a/src/rangelist.c b/src/rangelist.c
index 9a5ec44..eb2c28a 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -57,6 +57,7 @@ void laik_rangelist_free(Laik_RangeList* list)
     free(list->tss1d);
     free(list->off);
     free(list->map_off);
+    free(list);
 }
 
 // does this cover the full space with one range for each process?
-- 
2.43.0


From beede6739cfe0f6e3ed829d7a9019e904a777ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:59 +0000
Subject: [PATCH 66/80] fix: name of a transition not released

---
 src/space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/space.c b/src/space.c
index b727a0f..4cc9089 100644
--- a/src/space.c
+++ b/src/space.c
@@ -1663,6 +1663,7 @@ void laik_free_transition(Laik_Transition* t)
     if (!t) return;
 
     laik_log(1, "free transition '%s'", t->name);
+    free(t->name);
     free(t);
 }
 
-- 
2.43.0


From e32f055de40845a4fafc2abaf024cf6f4ad9d479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:43 +0000
Subject: [PATCH 67/80] fix: sync of KVS without changes aborts with the old
 TCP backend

---
 src/backends/tcp/backend-tcp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index c740880..3d0da44 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -902,7 +902,7 @@ static void laik_tcp_sync(Laik_KVStore* kvs)
     // send merged changes to all others: may be 0 entries
     count[0] = dst->offUsed;
     count[1] = dst->dataUsed;
-    assert(count[1] > count[0]); // more byte than offsets
+    assert((count[0] == 0) || (count[1] > 0));
     for(int i = 1; i < world->size; i++) {
         laik_log(1, "MPI sync: sending %d changes (total %d chars) to T%d",
                  count[0] / 2, count[1], i);
-- 
2.43.0


From f2c58584937deb1ba2fa90c8a0c172e10d382fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:43 +0000
Subject: [PATCH 68/80] fix: reductions other than sum are missing in the old
 TCP backend

---
 src/backends/tcp/backend-tcp.c |   4 +-
 src/backends/tcp/minimpi.c     | 103 +++++++++++++++++++++++++++++++++
 src/backends/tcp/minimpi.h     |   2 +
 src/backends/tcp/mpi.h         |   2 +
 4 files changed, 109 insertions(+), 2 deletions(-)

diff --git a/src/backends/tcp/backend-tcp.c b/src/backends/tcp/backend-tcp.c
index 3d0da44..8584a62 100644
--- a/src/backends/tcp/backend-tcp.c
+++ b/src/backends/tcp/backend-tcp.c
@@ -281,8 +281,8 @@ MPI_Op getMPIOp(Laik_ReductionOperation redOp)
     case LAIK_RO_Prod: mpiRedOp = MPI_PROD; break;
     case LAIK_RO_Min:  mpiRedOp = MPI_MIN; break;
     case LAIK_RO_Max:  mpiRedOp = MPI_MAX; break;
-    case LAIK_RO_And:  mpiRedOp = MPI_LAND; break;
-    case LAIK_RO_Or:   mpiRedOp = MPI_LOR; break;
+    case LAIK_RO_And:  mpiRedOp = MPI_BAND; break;
+    case LAIK_RO_Or:   mpiRedOp = MPI_BOR; break;
     default: assert(0);
     }
     return mpiRedOp;
diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index f2eb846..925298c 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -189,8 +189,111 @@ static void laik_tcp_minimpi_combine (void* buffer, const void* data, const size
             }
             break;
         case LAIK_TCP_MINIMPI_PROD:
+        switch (datatype) {
+
+#define do_prod(TYPE) TYPE* b = buffer; \
+                      const TYPE* d = data; \
+                      for (size_t i = 0; i < elements; i++) \
+                          b[i] *= d[i];
+
+            case LAIK_TCP_MINIMPI_DOUBLE: { do_prod(double)   } break;
+            case LAIK_TCP_MINIMPI_FLOAT:  { do_prod(float)    } break;
+            case LAIK_TCP_MINIMPI_INT64:  { do_prod(int64_t)  } break;
+            case LAIK_TCP_MINIMPI_INT32:  { do_prod(int32_t)  } break;
+            case LAIK_TCP_MINIMPI_INT8:   { do_prod(int8_t)   } break;
+            case LAIK_TCP_MINIMPI_UINT64: { do_prod(uint64_t) } break;
+            case LAIK_TCP_MINIMPI_UINT32: { do_prod(uint32_t) } break;
+            case LAIK_TCP_MINIMPI_UINT8:  { do_prod(uint8_t)  } break;
+#undef do_prod
+            default:
+                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
+                    break;
+            }
+            break;
         case LAIK_TCP_MINIMPI_MIN:
+        switch (datatype) {
+
+#define do_min(TYPE) TYPE* b = buffer; \
+                     const TYPE* d = data; \
+                     for (size_t i = 0; i < elements; i++) \
+                         if (d[i] < b[i]) b[i] = d[i];
+
+            case LAIK_TCP_MINIMPI_DOUBLE: { do_min(double)   } break;
+            case LAIK_TCP_MINIMPI_FLOAT:  { do_min(float)    } break;
+            case LAIK_TCP_MINIMPI_INT64:  { do_min(int64_t)  } break;
+            case LAIK_TCP_MINIMPI_INT32:  { do_min(int32_t)  } break;
+            case LAIK_TCP_MINIMPI_INT8:   { do_min(int8_t)   } break;
+            case LAIK_TCP_MINIMPI_UINT64: { do_min(uint64_t) } break;
+            case LAIK_TCP_MINIMPI_UINT32: { do_min(uint32_t) } break;
+            case LAIK_TCP_MINIMPI_UINT8:  { do_min(uint8_t)  } break;
+#undef do_min
+            default:
+                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
+                    break;
+            }
+            break;
         case LAIK_TCP_MINIMPI_MAX:
+        switch (datatype) {
+
+#define do_max(TYPE) TYPE* b = buffer; \
+                     const TYPE* d = data; \
+                     for (size_t i = 0; i < elements; i++) \
+                         if (d[i] > b[i]) b[i] = d[i];
+
+            case LAIK_TCP_MINIMPI_DOUBLE: { do_max(double)   } break;
+            case LAIK_TCP_MINIMPI_FLOAT:  { do_max(float)    } break;
+            case LAIK_TCP_MINIMPI_INT64:  { do_max(int64_t)  } break;
+            case LAIK_TCP_MINIMPI_INT32:  { do_max(int32_t)  } break;
+            case LAIK_TCP_MINIMPI_INT8:   { do_max(int8_t)   } break;
+            case LAIK_TCP_MINIMPI_UINT64: { do_max(uint64_t) } break;
+            case LAIK_TCP_MINIMPI_UINT32: { do_max(uint32_t) } break;
+            case LAIK_TCP_MINIMPI_UINT8:  { do_max(uint8_t)  } break;
+#undef do_max
+            default:
+                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
+                    break;
+            }
+            break;
+        case LAIK_TCP_MINIMPI_BAND:
+        switch (datatype) {
+
+#define do_band(TYPE) TYPE* b = buffer; \
+                      const TYPE* d = data; \
+                      for (size_t i = 0; i < elements; i++) \
+                          b[i] &= d[i];
+
+            case LAIK_TCP_MINIMPI_INT64:  { do_band(int64_t)  } break;
+            case LAIK_TCP_MINIMPI_INT32:  { do_band(int32_t)  } break;
+            case LAIK_TCP_MINIMPI_INT8:   { do_band(int8_t)   } break;
+            case LAIK_TCP_MINIMPI_UINT64: { do_band(uint64_t) } break;
+            case LAIK_TCP_MINIMPI_UINT32: { do_band(uint32_t) } break;
+            case LAIK_TCP_MINIMPI_UINT8:  { do_band(uint8_t)  } break;
+#undef do_band
+            default:
+                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
+                    break;
+            }
+            break;
+        case LAIK_TCP_MINIMPI_BOR:
+        switch (datatype) {
+
+#define do_bor(TYPE) TYPE* b = buffer; \
+                     const TYPE* d = data; \
+                     for (size_t i = 0; i < elements; i++) \
+                         b[i] |= d[i];
+
+            case LAIK_TCP_MINIMPI_INT64:  { do_bor(int64_t)  } break;
+            case LAIK_TCP_MINIMPI_INT32:  { do_bor(int32_t)  } break;
+            case LAIK_TCP_MINIMPI_INT8:   { do_bor(int8_t)   } break;
+            case LAIK_TCP_MINIMPI_UINT64: { do_bor(uint64_t) } break;
+            case LAIK_TCP_MINIMPI_UINT32: { do_bor(uint32_t) } break;
+            case LAIK_TCP_MINIMPI_UINT8:  { do_bor(uint8_t)  } break;
+#undef do_bor
+            default:
+                    laik_tcp_errors_push (errors, __func__, 0, "Invalid MPI datatype %d", datatype);
+                    break;
+            }
+            break;
         case LAIK_TCP_MINIMPI_LAND:
         case LAIK_TCP_MINIMPI_LOR:
             laik_tcp_errors_push (errors, __func__, 1, "Unimplemented MPI operation %d", op);
diff --git a/src/backends/tcp/minimpi.h b/src/backends/tcp/minimpi.h
index 48c08ca..b54eceb 100644
--- a/src/backends/tcp/minimpi.h
+++ b/src/backends/tcp/minimpi.h
@@ -37,6 +37,8 @@ typedef enum {
     LAIK_TCP_MINIMPI_MAX,
     LAIK_TCP_MINIMPI_LAND,
     LAIK_TCP_MINIMPI_LOR,
+    LAIK_TCP_MINIMPI_BAND,
+    LAIK_TCP_MINIMPI_BOR,
 } Laik_Tcp_MiniMpiOp;
 
 typedef size_t Laik_Tcp_MiniMpiStatus;
diff --git a/src/backends/tcp/mpi.h b/src/backends/tcp/mpi.h
index 485cdeb..8c0b823 100644
--- a/src/backends/tcp/mpi.h
+++ b/src/backends/tcp/mpi.h
@@ -37,6 +37,8 @@ typedef Laik_Tcp_MiniMpiType MPI_Datatype;
 #define MPI_MAX  LAIK_TCP_MINIMPI_MAX
 #define MPI_LAND LAIK_TCP_MINIMPI_LAND
 #define MPI_LOR  LAIK_TCP_MINIMPI_LOR
+#define MPI_BAND LAIK_TCP_MINIMPI_BAND
+#define MPI_BOR  LAIK_TCP_MINIMPI_BOR
 typedef Laik_Tcp_MiniMpiOp MPI_Op;
 
 typedef Laik_Tcp_MiniMpiStatus MPI_Status;
-- 
2.43.0


From 72f805c15a697a3bb860a70227b42db1d4aed4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:43 +0000
Subject: [PATCH 69/80] fix: messages of communicators of the old TCP backend
 can be mixed up

---
 src/backends/tcp/minimpi.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/backends/tcp/minimpi.c b/src/backends/tcp/minimpi.c
index 925298c..e97d137 100644
--- a/src/backends/tcp/minimpi.c
+++ b/src/backends/tcp/minimpi.c
@@ -93,7 +93,7 @@ static size_t laik_tcp_minimpi_lookup (const Laik_Tcp_MiniMpiComm* comm, size_t
 }
 
 __attribute__ ((warn_unused_result))
-static GBytes* laik_tcp_minimpi_header (uint64_t generation, uint64_t type, uint64_t sender, uint64_t receiver, uint64_t tag) {
+static GBytes* laik_tcp_minimpi_header (const Laik_Tcp_MiniMpiComm* comm, uint64_t type, size_t sender, size_t receiver, uint64_t tag) {
     laik_tcp_always (flows);
 
     // We are mutating a global variable here, so let's make sure that there's
@@ -102,10 +102,11 @@ static GBytes* laik_tcp_minimpi_header (uint64_t generation, uint64_t type, uint
     LAIK_TCP_LOCK (&lock);
 
     const uint64_t data[] = {
-        GUINT64_TO_LE (generation),
+        GUINT64_TO_LE (comm->generation),
         GUINT64_TO_LE (type),
-        GUINT64_TO_LE (sender),
-        GUINT64_TO_LE (receiver),
+        // Communicators may share a generation, so use the world ranks here
+        GUINT64_TO_LE (laik_tcp_minimpi_lookup (comm, sender)),
+        GUINT64_TO_LE (laik_tcp_minimpi_lookup (comm, receiver)),
         GUINT64_TO_LE (tag),
         GUINT64_TO_LE (0),
     };
@@ -313,7 +314,7 @@ static void* laik_tcp_minimpi_run_async_split (void* input, __attribute__ ((unus
     // Send our split info structure all other peers
     for (size_t receiver = 0; receiver < info->comm->tasks->len; receiver++) {
         if (receiver != info->comm->rank) {
-            g_autoptr (GBytes) header = laik_tcp_minimpi_header (info->comm->generation, TYPE_SPLIT, info->comm->rank, receiver, 0);
+            g_autoptr (GBytes) header = laik_tcp_minimpi_header (info->comm, TYPE_SPLIT, info->comm->rank, receiver, 0);
             laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (info->comm, receiver), header, info->body);
         }
     }
@@ -359,7 +360,7 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
     if (comm->rank == master) {
         // Receive the ping message from all slaves
         for (size_t slave = 1; slave < comm->tasks->len; slave++) {
-            g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, slave, master, 0);
+            g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, slave, master, 0);
 
             __attribute__ ((unused)) g_autoptr (GBytes) ping_body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, slave), ping_header, errors);
             if (laik_tcp_errors_present (errors)) {
@@ -372,7 +373,7 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
 
         // Synchronously (!) send the pong to all slaves
         for (size_t slave = 1; slave < comm->tasks->len; slave++) {
-            g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, master, slave, 0);
+            g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, master, slave, 0);
             g_autoptr (GBytes) pong_body   = g_bytes_new (NULL, 0);
 
             laik_tcp_messenger_send (messenger, laik_tcp_minimpi_lookup (comm, slave), pong_header, pong_body, errors);
@@ -385,13 +386,13 @@ int laik_tcp_minimpi_barrier (const Laik_Tcp_MiniMpiComm* comm) {
         }
     } else {
         // Send the ping message to the master
-        g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, comm->rank, master, 0);
+        g_autoptr (GBytes) ping_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, comm->rank, master, 0);
         g_autoptr (GBytes) ping_body   = g_bytes_new (NULL, 0);
         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, master), ping_header, ping_body);
         laik_tcp_debug ("Slave %zu sent ping to master", comm->rank);
 
         // Receive the pong message from the master
-        g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm->generation, TYPE_BARRIER, master, comm->rank, 0);
+        g_autoptr (GBytes) pong_header = laik_tcp_minimpi_header (comm, TYPE_BARRIER, master, comm->rank, 0);
 
         __attribute__ ((unused)) g_autoptr (GBytes) pong_body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, master), pong_header, errors);
         if (laik_tcp_errors_present (errors)) {
@@ -427,13 +428,13 @@ int laik_tcp_minimpi_bcast (void* buffer, const int elements, const Laik_Tcp_Min
 
         for (size_t receiver = 0; receiver < comm->tasks->len; receiver++) {
             if (receiver != comm->rank) {
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_BROADCAST, root, receiver, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_BROADCAST, root, receiver, 0);
 
                 laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, body);
             }
         }
     } else {
-        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_BROADCAST, root, comm->rank, 0);
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_BROADCAST, root, comm->rank, 0);
 
         g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, root), header, errors);
         if (laik_tcp_errors_present (errors)) {
@@ -516,7 +517,7 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
         for (size_t sender = 0; sender < comm->tasks->len; sender++) {
             if (sender != comm->rank) {
                 // It's not our turn to send, instead we should receive data
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, comm->rank, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SPLIT, sender, comm->rank, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -546,13 +547,13 @@ int laik_tcp_minimpi_comm_split (const Laik_Tcp_MiniMpiComm* comm, const int col
                 // It's our turn to send our split info structure all other peers
                 for (size_t receiver = 0; receiver < comm->tasks->len; receiver++) {
                     if (receiver != comm->rank) {
-                        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, receiver, 0);
+                        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SPLIT, sender, receiver, 0);
                         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, split_bytes);
                     }
                 }
             } else {
                 // It's not our turn to send, instead we should receive data
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SPLIT, sender, comm->rank, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SPLIT, sender, comm->rank, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -757,7 +758,7 @@ int laik_tcp_minimpi_recv (void* buffer, const int elements, Laik_Tcp_MiniMpiTyp
         return laik_tcp_minimpi_error (errors);
     }
 
-    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SEND_RECEIVE, sender, comm->rank, tag);
+    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SEND_RECEIVE, sender, comm->rank, tag);
 
     g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
     if (laik_tcp_errors_present (errors)) {
@@ -800,7 +801,7 @@ int laik_tcp_minimpi_reduce (const void* input_buffer, void* output_buffer, cons
          // Collect the result from all other peers and laik_tcp_minimpi_combine
         for (size_t sender = 0; sender < comm->tasks->len; sender++) {
             if (sender != comm->rank) {
-                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_REDUCE, sender, root, 0);
+                g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_REDUCE, sender, root, 0);
 
                 g_autoptr (GBytes) body = laik_tcp_messenger_get (messenger, laik_tcp_minimpi_lookup (comm, sender), header, errors);
                 if (laik_tcp_errors_present (errors)) {
@@ -823,7 +824,7 @@ int laik_tcp_minimpi_reduce (const void* input_buffer, void* output_buffer, cons
     } else {
         const void* input = input_buffer == LAIK_TCP_MINIMPI_IN_PLACE ? output_buffer : input_buffer;
 
-        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_REDUCE, comm->rank, root, 0);
+        g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_REDUCE, comm->rank, root, 0);
         g_autoptr (GBytes) body   = g_bytes_new (input, size);
 
         laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, root), header, body);
@@ -848,7 +849,7 @@ int laik_tcp_minimpi_send (const void* buffer, const int elements, const Laik_Tc
         return laik_tcp_minimpi_error (errors);
     }
 
-    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm->generation, TYPE_SEND_RECEIVE, comm->rank, receiver, tag);
+    g_autoptr (GBytes) header = laik_tcp_minimpi_header (comm, TYPE_SEND_RECEIVE, comm->rank, receiver, tag);
     g_autoptr (GBytes) body   = g_bytes_new (buffer, size);
 
     laik_tcp_messenger_push (messenger, laik_tcp_minimpi_lookup (comm, receiver), header, body);
-- 
2.43.0


From 9f12b23d4c08ee34108da3f7c67ae4f0cce7d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:43 +0000
Subject: [PATCH 70/80] fix: unlimited message stores of the old TCP backend
 keep messages already sent

---
 src/backends/tcp/map.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/backends/tcp/map.c b/src/backends/tcp/map.c
index 088a42a..d077bb4 100644
--- a/src/backends/tcp/map.c
+++ b/src/backends/tcp/map.c
@@ -89,11 +89,6 @@ void laik_tcp_map_discard (Laik_Tcp_Map* this, GBytes* key) {
 
     laik_tcp_debug ("Discarding key 0x%08X", g_bytes_hash (key));
 
-    if (this->limit == SIZE_MAX) {
-        laik_tcp_debug ("Mapping may grow to infinite size, aborting");
-        return;
-    }
-
     GBytes* value = g_hash_table_lookup (this->hash, key);
 
     if (!value) {
-- 
2.43.0


From dede283ca0556eac225dcfaf7a0478d66543b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:12 +0000
Subject: [PATCH 71/80] fix: declared function to load an agent from a function
 is missing

---
 src/external.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.c b/src/external.c
index e1f7645..9bee922 100644
--- a/src/external.c
+++ b/src/external.c
@@ -149,7 +149,7 @@ void laik_ext_load_agent_from_file (
  * @param  argv: arguments to pass to the agent
  * @retval None
  */
-void laik_ext_loadagent (
+void laik_ext_load_agent_from_function (
     Laik_Instance* instance,
     laik_agent_init init,
     int argc, 
-- 
2.43.0


From 7236026e7d4dbe838ad48fc73e81b92aba407e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:12 +0000
Subject: [PATCH 72/80] fix: library handle of an external agent stored in the
 slot of the next agent

---
 src/external.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/external.c b/src/external.c
index 9bee922..adab3c4 100644
--- a/src/external.c
+++ b/src/external.c
@@ -120,7 +120,7 @@ void laik_ext_load_agent_from_file (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     handle = dlopen(path, RTLD_LAZY);
     if(!handle){
@@ -135,8 +135,8 @@ void laik_ext_load_agent_from_file (
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = handle;
+    ctrl->num_agents++;
     laik_log(LAIK_LL_Debug, "laik_ext_load_agent done ! L:2 \n");
 }
 
@@ -169,15 +169,15 @@ void laik_ext_load_agent_from_function (
     ctrl = instance->repart_ctrl;
 
     //ensure less than MAX_AGENT
-    assert(ctrl->num_agents <= MAX_AGENTS);
+    assert(ctrl->num_agents < MAX_AGENTS);
 
     agent = init(argc, argv);
 
     assert(agent);
 
     ctrl->agents[ctrl->num_agents] = agent;
-    ctrl->num_agents++;
     ctrl->handles[ctrl->num_agents] = NULL;
+    ctrl->num_agents++;
 }
 
 /** 
-- 
2.43.0


From 9da03378eaef771ced03f33897aed11131726ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:12 +0000
Subject: [PATCH 73/80] fix: laik_get_failed loses failures with several
 agents, and reports none wrongly

---
 src/external.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/external.c b/src/external.c
index adab3c4..457bb90 100644
--- a/src/external.c
+++ b/src/external.c
@@ -225,7 +225,6 @@ void laik_get_failed (
     int max_failed
 ){
 
-    (void) max_failed;
     Laik_RepartitionControl* ctrl;
     int i, n; //, count;
     assert(instance);    
@@ -233,6 +232,7 @@ void laik_get_failed (
     assert(ctrl);
     
 
+    *num_failed = 0;
     //count = 0;
     for(i=0; i < ctrl -> num_agents; i++){
         Laik_Agent* agent = ctrl->agents[i];
@@ -252,12 +252,17 @@ void laik_get_failed (
             // (1) Get a list of node_uids
 
 
-            fta->getfail(num_failed, failed_ranks);
+            // append to nodes reported by previous agents
+            node_uid_t* uids = failed_ranks + *num_failed;
+            n = 0;
+            fta->getfail(&n, uids);
+            *num_failed += n;
+            assert(*num_failed <= max_failed);
 
             //printf("fta-> getfail: %d \n", *num_failed);
-            for(int k = 0 ; k < *num_failed; k++ )
+            for(int k = 0 ; k < n; k++ )
 			{
-				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(failed_ranks + k)->uid, k);
+				laik_log(LAIK_LL_Debug, " Buf: %s   - % d \n",(uids + k)->uid, k);
 				fflush(stdout);
 			}
 
-- 
2.43.0


From d37de468dcf527be7b65feed634dca6cded852e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 74/80] fix: simple agent crashes when asked for failed nodes

---
 external/simple/simple-agent.c | 7 +++----
 external/simple/simple-agent.h | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/external/simple/simple-agent.c b/external/simple/simple-agent.c
index 8fe8a8e..c3ea923 100644
--- a/external/simple/simple-agent.c
+++ b/external/simple/simple-agent.c
@@ -61,9 +61,9 @@ void sa_set_iter(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 ){
-    char* buf = (*l_failed[0]).uid;
+    char* buf = l_failed[0].uid;
 #ifdef __DEBUG__
     printf("Simple Agent: Get Failed, fail_iter = %d, aIter = %d\n", fail_iter, aIter);    
 #endif
@@ -114,8 +114,7 @@ Laik_Agent* agent_init(
     myBase->detach = sa_detach;
     myBase->reset = sa_reset;
 
-    // FIXME: the cast suppresses a warning: wrong types! (JW)
-    me->getfail = (laik_agent_get_failed) sa_getfailed;
+    me->getfail = sa_getfailed;
     me->peekfail = sa_peekfailed;
     me->setiter = sa_set_iter;
 #ifdef __DEBUG__
diff --git a/external/simple/simple-agent.h b/external/simple/simple-agent.h
index f11ab0b..ed07852 100644
--- a/external/simple/simple-agent.h
+++ b/external/simple/simple-agent.h
@@ -28,7 +28,7 @@ Laik_Agent* agent_init(
 
 void sa_getfailed(
     int* n_failed,
-    node_uid_t** l_failed
+    node_uid_t* l_failed
 );
 
 void sa_set_iter(
-- 
2.43.0


From b7f3d6dec81d0b65674f41b479c04ef49d8961de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 75/80] fix: order of range borders wrong for distances larger
 than 2^31

---
 src/space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/space.c b/src/space.c
index 4cc9089..8186eb7 100644
--- a/src/space.c
+++ b/src/space.c
@@ -834,7 +834,7 @@ static int rb_cmp(const void *p1, const void *p2)
     if (sb1->b == sb2->b) {
         return sb1->isStart - sb2->isStart;
     }
-    return sb1->b - sb2->b;
+    return (sb1->b < sb2->b) ? -1 : 1;
 
 }
 
-- 
2.43.0


From 828c4f3148ab003cc2a3159ba4472ed15cfd5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 76/80] fix: initialization for reductions truncates indexes to
 32 bit

---
 src/data.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data.c b/src/data.c
index 73834c3..ad7fa2d 100644
--- a/src/data.c
+++ b/src/data.c
@@ -723,9 +723,9 @@ void initMaps(Laik_Transition* t,
         assert(dims == 1); // only for 1d now
         Laik_Data* d = toMap->data;
         Laik_Range* s = &(op->range);
-        int from = s->from.i[0];
-        int to = s->to.i[0];
-        int elemCount = to - from;
+        int64_t from = s->from.i[0];
+        int64_t to = s->to.i[0];
+        int64_t elemCount = to - from;
 
         char* toBase = toMap->base;
         assert(from >= toMap->requiredRange.from.i[0]);
@@ -743,8 +743,9 @@ void initMaps(Laik_Transition* t,
             assert(0);
         }
 
-        laik_log(1, "init map for '%s' range/map %d/%d: %d entries in [%d;%d[ from %p\n",
-                 d->name, op->rangeNo, op->mapNo, elemCount, from, to, (void*) toBase);
+        laik_log(1, "init map for '%s' range/map %d/%d: %lld entries in [%lld;%lld[ from %p\n",
+                 d->name, op->rangeNo, op->mapNo, (long long int) elemCount,
+                 (long long int) from, (long long int) to, (void*) toBase);
     }
 }
 
-- 
2.43.0


From b0f6c9322389e642513727ba7157d43e9ad21c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 77/80] fix: grid partitioner may miss the last indexes of a
 space

---
 src/partitioner.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/partitioner.c b/src/partitioner.c
index dc1c68d..62eeb53 100644
--- a/src/partitioner.c
+++ b/src/partitioner.c
@@ -465,29 +465,31 @@ void runGridPartitioner(Laik_RangeReceiver* r, Laik_PartitionerParams* p)
     Laik_Range range;
     int64_t from, to;
 
+    // due to rounding, the calculated end of the last block in a dimension
+    // may be before the end of the space: always use the latter
     range.space = p->space;
     int task = 0;
     for(int z = 0; z < data->zblocks; z++) {
         from = ss->from.i[2] + z * zStep;
         to   = ss->from.i[2] + (z+1) * zStep;
+        if ((z == data->zblocks - 1) || (to > ss->to.i[2])) to = ss->to.i[2];
         if (from == to) continue;
-        if (to > ss->to.i[2]) to = ss->to.i[2];
         range.from.i[2] = from;
         range.to.i[2]   = to;
 
         for(int y = 0; y < data->yblocks; y++) {
             from = ss->from.i[1] + y * yStep;
             to   = ss->from.i[1] + (y+1) * yStep;
+            if ((y == data->yblocks - 1) || (to > ss->to.i[1])) to = ss->to.i[1];
             if (from == to) continue;
-            if (to > ss->to.i[1]) to = ss->to.i[1];
             range.from.i[1] = from;
             range.to.i[1]   = to;
 
             for(int x = 0; x < data->xblocks; x++) {
                 from = ss->from.i[0] + x * xStep;
                 to   = ss->from.i[0] + (x+1) * xStep;
+                if ((x == data->xblocks - 1) || (to > ss->to.i[0])) to = ss->to.i[0];
                 if (from == to) continue;
-                if (to > ss->to.i[0]) to = ss->to.i[0];
                 range.from.i[0] = from;
                 range.to.i[0]   = to;
 
-- 
2.43.0


From 47b633fc7ee2cf76dbaf84a45f0d1f8a65a3513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 78/80] fix: merging own ranges fails if there are none

---
 src/rangelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rangelist.c b/src/rangelist.c
index eb2c28a..48cdad9 100644
--- a/src/rangelist.c
+++ b/src/rangelist.c
@@ -418,8 +418,8 @@ static void sortRanges(Laik_RangeList* list)
 
 static void mergeSortedRanges(Laik_RangeList* list)
 {
-    assert(list->trange); // this is for generic ranges
     if (list->count == 0) return;
+    assert(list->trange); // this is for generic ranges
 
     assert(list->space->dims == 1); // current algorithm only works for 1d
 
-- 
2.43.0


From fa4554fdbdf1ed5eae9d45aaa7bc56b6845eab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 79/80] fix: buffers for object names too small after a million
 objects

---
 src/action.c | 2 +-
 src/data.c   | 4 ++--
 src/space.c  | 4 ++--
 src/type.c   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/action.c b/src/action.c
index 6086910..1a3b0a9 100644
--- a/src/action.c
+++ b/src/action.c
@@ -36,7 +36,7 @@ Laik_ActionSeq* laik_aseq_new(Laik_Instance *inst)
         exit(1); // not actually needed, laik_panic never returns
     }
     as->id = aseq_id++;
-    as->name = strdup("aseq-0     ");
+    as->name = strdup("aseq-0          ");
     sprintf(as->name, "aseq-%d", as->id);
 
     as->inst = inst;
diff --git a/src/data.c b/src/data.c
index ad7fa2d..ca17b98 100644
--- a/src/data.c
+++ b/src/data.c
@@ -165,7 +165,7 @@ Laik_Data* laik_new_data(Laik_Space* space, Laik_Type* type)
     }
 
     d->id = data_id++;
-    d->name = strdup("data-0     ");
+    d->name = strdup("data-0          ");
     sprintf(d->name, "data-%d", d->id);
 
     d->space = space;
@@ -906,7 +906,7 @@ Laik_Reservation* laik_reservation_new(Laik_Data* d)
     }
 
     r->id = res_id++;
-    r->name = strdup("res-0     ");
+    r->name = strdup("res-0          ");
     sprintf(r->name, "res-%d", r->id);
 
     r->data = d;
diff --git a/src/space.c b/src/space.c
index 8186eb7..58ef9f4 100644
--- a/src/space.c
+++ b/src/space.c
@@ -336,7 +336,7 @@ Laik_Space* laik_new_space(Laik_Instance* inst)
     }
 
     space->id = space_id++;
-    space->name = strdup("space-0     ");
+    space->name = strdup("space-0          ");
     sprintf(space->name, "space-%d", space->id);
 
     space->inst = inst;
@@ -1576,7 +1576,7 @@ do_calc_transition(Laik_Space* space,
     }
 
     t->id = trans_id++;
-    t->name = strdup("trans-0     ");
+    t->name = strdup("trans-0          ");
     sprintf(t->name, "trans-%d", t->id);
 
     t->flags = tflags;
diff --git a/src/type.c b/src/type.c
index 8775c24..6ae03ea 100644
--- a/src/type.c
+++ b/src/type.c
@@ -643,7 +643,7 @@ Laik_Type* laik_type_new(char* name, Laik_TypeKind kind, int size,
     if (name)
         t->name = name;
     else {
-        t->name = strdup("type-0     ");
+        t->name = strdup("type-0          ");
         sprintf(t->name, "type-%d", t->id);
     }
 
-- 
2.43.0


From 061efe0efbc75e2617dfbe637eadb34bfb6a59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:49 +0000
Subject: [PATCH 80/80] fix: tcp2: incomplete command of a process dying while
 sending is executed

---
 src/backend-tcp2.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backend-tcp2.c b/src/backend-tcp2.c
index 8c46934..7ff02bd 100644
--- a/src/backend-tcp2.c
+++ b/src/backend-tcp2.c
@@ -1725,6 +1725,13 @@ void got_bytes(InstData* d, int fd)
     if (len == 0) {
         // other side closed connection
 
+        if ((used > 0) && (d->fds[fd].lid >= 0)) {
+            // peer always sends complete commands: it died while sending
+            laik_log(LAIK_LL_Warning, "TCP2 incomplete command from LID %d; ignoring",
+                     d->fds[fd].lid);
+            d->fds[fd].rbuf_used = used = 0;
+        }
+
         if (used > 0) {
             // process left-over commands, add NL for last command to process
             rbuf[used] = '\n';
-- 
2.43.0

