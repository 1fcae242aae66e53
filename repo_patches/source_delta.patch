From a0cfd58e536a7aea1d55b5f20784cf84ae7737bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 01/46] fix: forget that EnGPar initialized PCU once it has
 finalized it

---
 support/engpar_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/engpar_support.cpp b/support/engpar_support.cpp
index d309b21..bcd77e4 100644
--- a/support/engpar_support.cpp
+++ b/support/engpar_support.cpp
@@ -21,6 +21,7 @@ void EnGPar_Finalize() {
   EnGPar_Close_Log();
   if (handlingPCU &&PCU_Comm_Initialized())
     PCU_Comm_Free();
+  handlingPCU=false;
 }
 
 void EnGPar_Switch_Comm(MPI_Comm comm) {
-- 
2.43.0


From 2d1d3a6e6a34654b4bd12845c40e93ee5d6232de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 02/46] fix: record ghost weights in the array form of
 constructGhosts too

---
 agi/agiConstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..b870116 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -465,6 +465,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From d286439785c236fa783279f8b2ad3bae18297246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 03/46] fix: visit both pins of a self loop in a traditional
 graph

---
 agi/Iterators/PinIterator.h | 5 ++++-
 agi/agiIterate.cpp          | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/agi/Iterators/PinIterator.h b/agi/Iterators/PinIterator.h
index 1d140ce..636f1cc 100644
--- a/agi/Iterators/PinIterator.h
+++ b/agi/Iterators/PinIterator.h
@@ -12,8 +12,11 @@ class PinIterator {
   friend class Ngraph;
   lid_t* loc;
   lid_t* end;
+  //true until the source of a traditional edge has been visited
+  //(the source and the destination are the same vertex in a self loop)
+  bool first;
   PinIterator(lid_t* l,lid_t* e)
-    :loc(l),end(e) {}
+    :loc(l),end(e),first(true) {}
   void iterate() {loc++;}
 };
   
diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..b5e61eb 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -82,8 +82,9 @@ namespace agi {
     }
     else {
       GraphVertex* vtx = reinterpret_cast<GraphVertex*>(itr->loc);
-      if (itr->loc==itr->end)
+      if (!itr->first)
         itr->end=NULL;
+      itr->first=false;
       itr->loc=itr->end;
       return vtx;
     }
-- 
2.43.0


From b4c5b2afb521777b36606bdeecfdcc640beb20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 04/46] fix: keep each edge's weight with its edge when
 traditional edges are grouped by source

---
 agi/agiConstruct.cpp | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index b870116..78b398a 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,6 +221,15 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    //Set the weights of the edges
+    edge_weights[t] = new wgt_t[edge_ids.size()];
+    if (e_weights.size()==0)
+      for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
+        edge_weights[t][i] = 1;
+    else
+      for (lid_t i=0;i<(lid_t)e_weights.size();i++)
+        edge_weights[t][i] = e_weights[i];
+
     //Loop through edges again to build the edge lists
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
@@ -239,22 +248,17 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //the edges are grouped by source, so are their weights
+            if (e_weights.size()>0)
+              edge_weights[t][temp_counts[u]] = e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
-    if (e_weights.size()==0)
-      for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<(lid_t)e_weights.size();i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
@@ -329,6 +333,15 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    //Set the weights of the edges
+    edge_weights[t] = new wgt_t[num_edges];
+    if (!e_weights)
+      for (lid_t i=0;i<num_edges;i++) 
+        edge_weights[t][i] = 1;
+    else
+      for (lid_t i=0;i<num_edges;i++)
+        edge_weights[t][i] = e_weights[i];
+
     for (lid_t i=0;i<num_edges;i++) {
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
@@ -344,22 +357,17 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //the edges are grouped by source, so are their weights
+            if (e_weights)
+              edge_weights[t][temp_counts[u]] = e_weights[i];
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
-    if (!e_weights)
-      for (lid_t i=0;i<num_edges;i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<num_edges;i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 37574b6fa445a9839202f976419eaff1f899547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 05/46] fix: let setEdgeWeights replace the weights an edge
 type already has

---
 agi/agiEdge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 1eb3f14..943528d 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -141,7 +141,7 @@ namespace agi {
     }
   }
   void Ngraph::setEdgeWeights(std::vector<wgt_t>& wgts, etype t) {
-    assert(!edge_weights[t]);
+    delete [] edge_weights[t];
     if (wgts.size()==0) {
       edge_weights[t] = new wgt_t[num_local_edges[t]];
       for (gid_t i=0;i<num_local_edges[t];i++)
-- 
2.43.0


From 252ce302d15a3920a8e5d5d8a0429ceb7f72c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 06/46] fix: index migration timers within their arrays

---
 agi/agiMigrationTimers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..a841ff6 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,7 +15,7 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = names.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
-- 
2.43.0


From c51b89c592caa537c5c2d3a8a7c8e53ef35cda26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 07/46] fix: migrate the edges of every type, not those of type
 0 for each type

---
 agi/agiMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8b12939 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -77,7 +77,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From abf550533abb1594b92c6d9c3ca2f7f0cfa019e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 08/46] fix: keep a traditional edge whose destination migrates
 away from its source

---
 agi/agiMigrate.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8b12939..baddcac 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -125,12 +125,18 @@ namespace agi {
     EdgeIterator* itr = g->begin(t);
     GraphEdge* e;
     while ((e = g->iterate(itr))) {
-      agi::PinIterator* pitr = g->pins(e);
-      agi::GraphVertex* end;
-      while ((end=g->iterate(pitr)))
-        if (plan->has(end))
-          break;
-      g->destroy(pitr);
+      agi::PinIterator* pitr;
+      agi::GraphVertex* end=NULL;
+      if (g->isHyper()) {
+        pitr = g->pins(e);
+        while ((end=g->iterate(pitr)))
+          if (plan->has(end))
+            break;
+        g->destroy(pitr);
+      }
+      //A traditional edge stays with its source
+      else if (plan->has(g->u(e)))
+        end = g->u(e);
       if (!end) {
         //Add the Edge
         gid_t gid = g->globalID(e);
@@ -143,7 +149,8 @@ namespace agi {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
           part_t owner = g->owner(end);
-
+          if (plan->has(end))
+            owner = plan->get(end);
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
         }
-- 
2.43.0


From 98564f31f2568081653dabdb5afeedbb5e848072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 09/46] fix: update the owner of every migrated ghost vertex,
 whatever its edges

---
 agi/agiMigrate.cpp | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index baddcac..64f4d99 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -25,22 +25,30 @@ namespace agi {
   }
 
   void Ngraph::updateGhostOwners(Migration* plan) {
+    //Ask the owner of each ghost vertex where the vertex is going. The owner
+    // does not know every part that has the vertex as a ghost: a directed edge
+    // is only known to the part of its source.
     PCU_Comm_Begin();
-    Migration::iterator itr;
-    for (itr = plan->begin();itr!=plan->end();itr++) {
-      GraphVertex* v = *itr;
+    GhostIterator* gitr = beginGhosts();
+    GraphVertex* v;
+    while ((v = iterate(gitr))) {
       gid_t gid = globalID(v);
-      part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
-        }
-      }
-      destroy(gitr);
+      PCU_COMM_PACK(owner(v),gid);
+    }
+    PCU_Comm_Send();
+    std::vector<std::pair<part_t,gid_t> > moving;
+    while (PCU_Comm_Receive()) {
+      gid_t gid;
+      PCU_COMM_UNPACK(gid);
+      if (plan->has(findGID(gid)))
+        moving.push_back(std::make_pair(PCU_Comm_Sender(),gid));
+    }
+    PCU_Comm_Begin();
+    for (size_t i=0;i<moving.size();i++) {
+      gid_t gid = moving[i].second;
+      part_t toSend = plan->get(findGID(gid));
+      PCU_COMM_PACK(moving[i].first,gid);
+      PCU_COMM_PACK(moving[i].first,toSend);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
@@ -48,10 +56,7 @@ namespace agi {
       part_t own;
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(own);
-      lid_t lid = vtx_mapping[gid];
-      if (lid>=num_local_verts) {
-        owners[lid-num_local_verts]=own;
-      }
+      owners[localID(findGID(gid))-num_local_verts]=own;
     }
   }
   /*
-- 
2.43.0


From 1b2de9a86a8f82540d5ba0d5aeafb2bcc44e9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 10/46] fix: seed the distance queue with an existing edge when
 a part has no ghosts

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..8c654bf 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If run in serial use edge 2 for the seed (or the first edge if there are fewer)
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+       in1->seeds[in1->numSeeds++] = pg->num_local_edges[t]>2 ? 2 : 0;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From 4eacfac0e07b880a242492553f5d834ce62bc3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 11/46] fix: skip cavities without vertices when selecting
 disconnected ones

---
 partition/Diffusive/src/engpar_selector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..d6a9973 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -233,6 +233,9 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
+      //A cavity whose vertices are all planned already has no peers left
+      if (peers.size() == 0)
+        continue;
       if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
-- 
2.43.0


From f6e2c18f949411e3787ee93e624d39b15c2a7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 12/46] fix: distance queue of a traditional graph reads edges
 and labels of its own round

---
 partition/Diffusive/src/engpar_queue.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8c654bf..b08b5ce 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -128,6 +128,9 @@ namespace engpar {
       return true;
     }
     int l2 = i->labels[dest];
+    //Reached an edge visited from an earlier set of seeds
+    if (l2==-1)
+      return false;
     while(l2!=i->parents[l2]) 
       l2=i->parents[l2];
     if (label!=l2) {
@@ -217,14 +220,14 @@ namespace engpar {
         int source = -1;
         agi::lid_t v = current_vtxs[i];
         for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
-          agi::lid_t edge = pg->edge_list[t][j];
+          agi::lid_t edge = pg->isHyperGraph ? pg->edge_list[t][j] : j;
           if (in->visited[edge] != -1 &&
               (source == -1 || in->visited[edge] < in->visited[source]))
             source = edge;
         }
         if (source!=-1&&in->visited[source]==level) {
           for (agi::lid_t j=pg->degree_list[t][v];j<pg->degree_list[t][v+1];j++){
-            agi::lid_t edge = pg->edge_list[t][j];
+            agi::lid_t edge = pg->isHyperGraph ? pg->edge_list[t][j] : j;
             num_updates+=visit(in,source,edge);
           }
         }
@@ -369,6 +372,9 @@ namespace engpar {
       //Sort the recent BFS in accordance to the offsets
       bfsSort(in2->seeds,start_seed,in2->numSeeds-1,in2->visited);
       
+      //The labels index this round's disjoint sets
+      for (agi::lid_t i=start_seed;i<in2->numSeeds;i++)
+        in2->labels[in2->seeds[i]] = -1;
       //Cleanup disjoint sets
       delete [] in2->parents;
       in2->parents = NULL;
-- 
2.43.0


From e05785e7ee68b249bdfd8c5be4a85b26e1dbcb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 13/46] fix: cavities of 100 and more vertices overran an
 unused histogram

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index d6a9973..604df86 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From 53821da0ba0466810e6d6d9cf328b1e257e42740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 14/46] fix: trimming overran a fixed array after more than
 five completed priorities

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 604df86..3fcad56 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -273,9 +273,9 @@ namespace engpar {
   struct Migr {
     Migr(int i) :
       id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+    void addWeight(double w) {ws.push_back(w); edge_types++;}
     int id;
-    double ws[5];
+    std::vector<double> ws;
     int edge_types;
   };
   struct CompareMigr {
-- 
2.43.0


From 80a59918a8ded358e62922ecdac60829bfd36c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 15/46] fix: weight migration added received weight to the last
 vertex of the part

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From f88f2c3a165c36687ba2ac7f9c7735239fbdab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 16/46] fix: refresh ghost weights after weight migration

---
 agi/agiWeightMigrate.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index 590518d..25468cd 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -7,6 +7,7 @@
 #include "agiMigration.h"
 
 namespace agi {
+  double weightTag(Ngraph* g, GraphVertex* v);
 
   void Ngraph::migrate(WeightMigration* plan, MigrationTimers*) {
     //Get initial vertex weights
@@ -50,6 +51,13 @@ namespace agi {
 
     setWeights(v_weights);
     delete [] v_weights;
+
+    //The ghosts carry the weights of their owners
+    if (PCU_Comm_Peers() > 1) {
+      if (ghost_weights)
+        destroyTag(ghost_weights);
+      ghost_weights = createDoubleGhostTag(weightTag);
+    }
     delete plan;
   }
 
-- 
2.43.0


From 49fc372443ff1867742dfec243600e1c082bd0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 17/46] fix: build the boundary queues on the requested edge
 type

---
 partition/Diffusive/src/engpar_balancer.cpp       |  2 +-
 partition/Diffusive/src/engpar_queue.cpp          | 12 ++++++------
 partition/Diffusive/src/engpar_queue.h            |  2 +-
 partition/Diffusive/src/engpar_weightBalancer.cpp |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..c1651b3 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -130,7 +130,7 @@ namespace engpar {
       pq = createDistanceQueue(inp);
     }
     else 
-      pq = createIterationQueue(input->g);
+      pq = createIterationQueue(input->g,inp->selection_edge_type);
     distance_time+=PCU_Time()-t;
 
     Selector* selector = makeSelector(inp,pq,&completed_dimensions,
diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index b08b5ce..068d88a 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -2,10 +2,10 @@
 #include <PCU.h>
 
 namespace engpar {
-  Queue* createIterationQueue(agi::Ngraph* g) {
+  Queue* createIterationQueue(agi::Ngraph* g, agi::etype t) {
     int n=0;
     agi::GraphEdge* edge;
-    agi::EdgeIterator* eitr = g->begin(0);
+    agi::EdgeIterator* eitr = g->begin(t);
     while ((edge = g->iterate(eitr))) {
       agi::PinIterator* pitr = g->pins(edge);
       agi::lid_t degree = g->degree(edge);
@@ -20,7 +20,7 @@ namespace engpar {
     }
     g->destroy(eitr);
     Queue* q = new Queue(n);
-    eitr = g->begin(0);
+    eitr = g->begin(t);
     while ((edge = g->iterate(eitr))) {
       agi::PinIterator* pitr = g->pins(edge);
       agi::lid_t degree = g->degree(edge);
@@ -173,7 +173,7 @@ namespace engpar {
         int process = g->getIntTag(processed,bridge);
         if (process)
           continue;
-        agi::EdgeIterator* eitr = g->edges(bridge);
+        agi::EdgeIterator* eitr = g->edges(bridge,t);
         agi::GraphEdge* dest;
         while ((dest = g->iterate(eitr))) {
           if (dest==source)
@@ -250,11 +250,11 @@ namespace engpar {
 
   Queue* createDistanceQueue(DiffusiveInput* input) {
     agi::Ngraph* g = input->g;
-    if (g->numLocalEdges()==0) {
+    agi::etype t = input->selection_edge_type;
+    if (g->numLocalEdges(t)==0) {
       return new Queue(0);
     }
     agi::PNgraph* pg = g->publicize();
-    agi::etype t = 0;
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
diff --git a/partition/Diffusive/src/engpar_queue.h b/partition/Diffusive/src/engpar_queue.h
index 20a2291..9ecc2e7 100644
--- a/partition/Diffusive/src/engpar_queue.h
+++ b/partition/Diffusive/src/engpar_queue.h
@@ -42,7 +42,7 @@ namespace engpar {
     agi::GraphEdge** next;
   };
   typedef ShrinkingArray Queue;
-  Queue* createIterationQueue(agi::Ngraph*);
+  Queue* createIterationQueue(agi::Ngraph*, agi::etype t=0);
   Queue* createDistanceQueue(DiffusiveInput*);
 }
 
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..5746dd3 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -67,7 +67,7 @@ namespace engpar {
       //pq = createDistanceQueue(inp);
       ;
     else
-      pq = createIterationQueue(input->g);
+      pq = createIterationQueue(input->g,inp->primary_edge_type);
     distance_time+=PCU_Time()-t;
 
     WeightSelector* selector = makeWeightSelector(inp,pq);
-- 
2.43.0


From 361f22fddc6c58d6b5d5cef7c05d3874bab42464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 18/46] fix: report a failing fclose, which leaves a saved file
 incomplete

---
 pcu/pcu_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcu/pcu_io.c b/pcu/pcu_io.c
index 01462ac..701213c 100644
--- a/pcu/pcu_io.c
+++ b/pcu/pcu_io.c
@@ -201,7 +201,8 @@ void pcu_fclose(pcu_file* pf)
 {
   if (pf->compress)
     close_compressed(pf);
-  fclose(pf->f);
+  if (fclose(pf->f))
+    reel_fail("fclose failed: the file is incomplete");
   free(pf);
 }
 
-- 
2.43.0


From fa9f7cd0285c57b8d317299560e94c71ba49f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 19/46] fix: label the vertices of a binary graph once, apart
 from their global ids

---
 interfaces/binGraph.cpp | 43 +++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..f0b1b8a 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -289,19 +289,25 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   local_weights = new wgt_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     local_weights[i] = 1;
+  //Label the local vertices in order of appearance
   int64_t cur_label = 0;
   for (int64_t i = 0; i < num_local_edges[t]*2; i++) {
     int64_t out = edge_list[t][i];
-    if (ranks[out] != PCU_Comm_Self())
-      continue;
-    if (vtx_mapping.count(out) == 0) {
-      vtx_mapping[out] = cur_label;
+    if (ranks[out] == PCU_Comm_Self() && vtx_mapping.count(out) == 0) {
       local_unmap[cur_label] = out;
-      edge_list[t][i] = cur_label++;
+      vtx_mapping[out] = cur_label++;
+    }
+  }
+  //Local vertices may be in no local edge
+  for (int64_t i = 0; i < num_global_verts; ++i) {
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      local_unmap[cur_label] = i;
+      vtx_mapping[i] = cur_label++;
     }
-    else        
-      edge_list[t][i] = vtx_mapping[out];
   }
+  //The source of each edge becomes a label, the destination is still a global id
+  for (lid_t i = 0; i < num_local_edges[t]*2; i+=2)
+    edge_list[t][i] = vtx_mapping[edge_list[t][i]];
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
@@ -322,19 +328,18 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   edge_list[t] = tmp_edges;
   
 
-  if (createGhost) {
-    cur_label = num_local_verts;
-    std::vector<int64_t> nonlocal_vids;
-    for (int64_t i = 0; i < num_local_edges[t]; ++i) {
-      int64_t out = edge_list[t][i];
-      if (vtx_mapping.find(out) ==vtx_mapping.end()) {
-        vtx_mapping[out] = cur_label;
-        edge_list[t][i] = cur_label++;
-        nonlocal_vids.push_back(out);
-      }
-      else if (vtx_mapping[out] >= num_local_verts)
-        edge_list[t][i] = vtx_mapping[out];
+  cur_label = num_local_verts;
+  std::vector<int64_t> nonlocal_vids;
+  for (int64_t i = 0; i < num_local_edges[t]; ++i) {
+    int64_t out = edge_list[t][i];
+    if (vtx_mapping.count(out) == 0) {
+      assert(createGhost);
+      vtx_mapping[out] = cur_label++;
+      nonlocal_vids.push_back(out);
     }
+    edge_list[t][i] = vtx_mapping[out];
+  }
+  if (createGhost) {
     num_ghost_verts = cur_label - num_local_verts;
     if (num_ghost_verts>0) {
       ghost_unmap = new gid_t[num_ghost_verts];
-- 
2.43.0


From 363402d52108e99624058f7ad075efa884a51d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 20/46] fix: changeOwners renumbers the recorded original
 owners too

---
 agi/agiVertex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..6abe909 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -164,6 +164,9 @@ bool Ngraph::isEqual(GraphVertex* u,GraphVertex* v) const {
   void Ngraph::changeOwners(int* newRanks) {
     for (int i=0;i<num_ghost_verts;++i)
       owners[i] = newRanks[owners[i]];
+    if (original_owners)
+      for (lid_t i=0;i<num_local_verts;++i)
+        original_owners[i] = newRanks[original_owners[i]];
   }
 
   VEVIterator* Ngraph::vev_begin(GraphVertex* vtx, etype t) const {
-- 
2.43.0


From 2ab9458a9050ccdc1241a395719c3c143a4229d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 21/46] fix: local ParMETIS split finds the local adjacency on
 every rank

---
 partition/Multilevel/engpar_parmetis.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..d915d1f 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -58,7 +58,9 @@ namespace engpar {
           if (other==vtx)
             continue;
           agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          //g->owner() cannot tell local vertices from ghosts when isLocal since the
+          //  communicator is then the process alone
+          if (!isLocal || g->localID(other) < g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
             res.insert(owner);
@@ -109,7 +111,7 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
+        if (g->localID(other) < g->numLocalVtxs()) {
           agi::lid_t lidv = g->localID(other);
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
-- 
2.43.0


From b29e0aa487e5ad7501c67e01a84964c5d7f421d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 22/46] fix: give Zoltan the number of pins that are listed for
 the part

---
 partition/Multilevel/engpar_zoltan.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..45aae0a 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -122,8 +122,12 @@ namespace engpar {
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
     agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    //Only the pins to local vertices are given by getHyperedges
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
-- 
2.43.0


From 2a2aecd1af690ff87da671d52412ab93399a951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 23/46] fix: give Zoltan the edges of the requested edge type

---
 partition/Multilevel/engpar_zoltan.cpp | 54 +++++++++++++++-----------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index 45aae0a..978280f 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -96,7 +96,8 @@ namespace engpar {
   /******  Callback functions  ******/
   //ZOLTAN_NUM_OBJ_FN
   int numVertices(void* data, int *ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *ierr = ZOLTAN_OK;
     return g->numLocalVtxs();
   }
@@ -105,7 +106,8 @@ namespace engpar {
   void getVertices(void* data, int ngid, int nlid,
                    ZOLTAN_ID_PTR gids, ZOLTAN_ID_PTR lids,
                    int nwgts, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
 
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
@@ -120,14 +122,15 @@ namespace engpar {
 
   //ZOLTAN_HG_SIZE_CS_FN
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *numVtxs = g->numLocalVtxs();
     //Only the pins to local vertices are given by getHyperedges
     *numPins = 0;
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
     while ((v = g->iterate(vitr)))
-      *numPins += g->degree(v);
+      *numPins += g->degree(v,input->edge_type);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
@@ -135,7 +138,8 @@ namespace engpar {
   //ZOLTAN_HG_CS_FN
   void getHyperedges(void* data, int ngid, int, int, int,
                      ZOLTAN_ID_PTR vtx_gids, int* offsets, ZOLTAN_ID_PTR edge_gids, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::GraphVertex* v;
     agi::VertexIterator* vitr = g->begin();
     int index = 0;
@@ -144,9 +148,9 @@ namespace engpar {
       agi::lid_t lid = g->localID(v);
       vtx_gids[lid*ngid] = g->globalID(v);
       if (lid < g->numLocalVtxs()-1)
-        offsets[lid+1] = offsets[lid] + g->degree(v); 
+        offsets[lid+1] = offsets[lid] + g->degree(v,input->edge_type); 
       agi::GraphEdge* e;
-      agi::EdgeIterator* eitr = g->edges(v);
+      agi::EdgeIterator* eitr = g->edges(v,input->edge_type);
       while ((e = g->iterate(eitr))) {
         edge_gids[index++] = g->globalID(e);
       }
@@ -157,17 +161,19 @@ namespace engpar {
 
   //ZOLTAN_HG_SIZE_EDGE_WTS_FN
   void numHyperedgeWeights(void *data, int* num_edges, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
-    *num_edges = g->numLocalEdges();
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
+    *num_edges = g->numLocalEdges(input->edge_type);
     *ierr = ZOLTAN_OK;
   }
   
   //ZOLTAN_HG_EDGE_ETS_FN
   void getHyperedgeWeights(void* data, int ngids, int nlids, int, int nweights,
                            ZOLTAN_ID_PTR gids, ZOLTAN_ID_PTR lids, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::GraphEdge* e;
-    agi::EdgeIterator* eitr = g->begin(0);
+    agi::EdgeIterator* eitr = g->begin(input->edge_type);
     while ((e = g->iterate(eitr))) {
       agi::lid_t lid = g->localID(e);
       lids[nlids*lid] = lid;
@@ -182,21 +188,23 @@ namespace engpar {
 
   //ZOLTAN_NUM_EDGES_FN
   int numEdges(void* data, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR lid, int *ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     *ierr = ZOLTAN_OK;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* v = pg->getVertex(*lid);
-    return g->degree(v);
+    return g->degree(v,input->edge_type);
   }
 
   //ZOLTAN_EDGE_LIST_FN
   void getEdges(void* data, int, int, ZOLTAN_ID_PTR, ZOLTAN_ID_PTR lid,
                 ZOLTAN_ID_PTR nbrs, int* owners, int, float* wgts, int* ierr) {
-    agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
+    SplitInput* input = static_cast<SplitInput*>(data);
+    agi::Ngraph* g = input->g;
     agi::PNgraph* pg = g->publicize();
     agi::GraphVertex* u = pg->getVertex(*lid);
 
-    agi::EdgeIterator* eitr = g->edges(u);
+    agi::EdgeIterator* eitr = g->edges(u,input->edge_type);
     agi::GraphEdge* e;
     int index = 0;
     while ((e = g->iterate(eitr))) {
@@ -213,24 +221,24 @@ namespace engpar {
 
   void setCallbacks(SplitInput* input, struct Zoltan_Struct* zz, bool isHyper) {
     Zoltan_Set_Fn(zz, ZOLTAN_NUM_OBJ_FN_TYPE,
-                  (void (*)())numVertices,(void*) input->g);
+                  (void (*)())numVertices,(void*) input);
     Zoltan_Set_Fn(zz, ZOLTAN_OBJ_LIST_FN_TYPE,
-                  (void (*)())getVertices,(void*) input->g);
+                  (void (*)())getVertices,(void*) input);
     if (isHyper) {
       Zoltan_Set_Fn(zz, ZOLTAN_HG_SIZE_CS_FN_TYPE,
-                    (void (*)())numHyperedges,(void*) input->g);
+                    (void (*)())numHyperedges,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_CS_FN_TYPE,
-                    (void (*)())getHyperedges,(void*) input->g);
+                    (void (*)())getHyperedges,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE,
-                    (void (*)())numHyperedgeWeights,(void*) input->g);
+                    (void (*)())numHyperedgeWeights,(void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_HG_EDGE_WTS_FN_TYPE,
-                    (void (*)())getHyperedgeWeights,(void*) input->g);
+                    (void (*)())getHyperedgeWeights,(void*) input);
     }
     else {
       Zoltan_Set_Fn(zz, ZOLTAN_NUM_EDGES_FN_TYPE,
-                    (void (*)())numEdges, (void*) input->g);
+                    (void (*)())numEdges, (void*) input);
       Zoltan_Set_Fn(zz, ZOLTAN_EDGE_LIST_FN_TYPE,
-                    (void (*)())getEdges, (void*) input->g);
+                    (void (*)())getEdges, (void*) input);
     }
   }
 #else
-- 
2.43.0


From 3588f20218e9d046b9ae80de671512b152d261a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 24/46] fix: give Zoltan owners numbered on the communicator it
 runs on

---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..d6b4802 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan runs on the large communicator and asks for the owners on it
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From 18931f2f176285e37aea042c1b4ee951d14e060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 25/46] fix: do not truncate fractional edge weights when
 summing the sides of a part

---
 partition/Diffusive/src/engpar_balancer.cpp |  2 +-
 partition/Diffusive/src/engpar_balancer.h   |  2 +-
 partition/Diffusive/src/engpar_make.cpp     |  6 +++---
 partition/Diffusive/src/engpar_sides.h      |  2 +-
 partition/Diffusive/src/engpar_targets.h    | 10 +++++-----
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index c1651b3..46f629f 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -273,7 +273,7 @@ namespace engpar {
         }
       }
       if (!PCU_Comm_Self() && verbosity >= 2)
-        EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
+        EnGPar_Status_Message("Side Tolerance is: %f\n", sideTol);
 
       //Run diffusion
       int rc;
diff --git a/partition/Diffusive/src/engpar_balancer.h b/partition/Diffusive/src/engpar_balancer.h
index ba4ef27..f44878d 100644
--- a/partition/Diffusive/src/engpar_balancer.h
+++ b/partition/Diffusive/src/engpar_balancer.h
@@ -34,7 +34,7 @@ namespace engpar {
     Input* input;
     double totStepTime;
     double distance_time;
-    int sideTol;
+    wgt_t sideTol;
     agi::Ngraph* weightGraph;
     agi::MigrationTimers* migrTime;
   };
diff --git a/partition/Diffusive/src/engpar_make.cpp b/partition/Diffusive/src/engpar_make.cpp
index 39deda4..82675fe 100644
--- a/partition/Diffusive/src/engpar_make.cpp
+++ b/partition/Diffusive/src/engpar_make.cpp
@@ -16,17 +16,17 @@ namespace engpar {
   Weights* makeWeights(agi::Ngraph* g, bool countGhosts, Sides* s, int target) {
     return new Weights(g,countGhosts,s,target);
   }
-  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(isHG, sf,s,tW,sT,cWs,cTs);
   }
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,tW,sT,cWs,cTs);
   }
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs) {
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,wp_map,sT,cWs,cTs);
   }
 
diff --git a/partition/Diffusive/src/engpar_sides.h b/partition/Diffusive/src/engpar_sides.h
index 7ee95ac..4509bf1 100644
--- a/partition/Diffusive/src/engpar_sides.h
+++ b/partition/Diffusive/src/engpar_sides.h
@@ -8,7 +8,7 @@
 #include "engpar_diffusive_input.h"
 
 namespace engpar {
-  class Sides : public Container<int>  {
+  class Sides : public Container<wgt_t>  {
   public:
     Sides(agi::Ngraph* g, agi::etype t) {
       agi::GraphEdge* edge;
diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index 7c74ea0..ce1eb54 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -9,7 +9,7 @@ namespace engpar {
 
   class Targets : public Container<wgt_t> {
   public:
-    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, int sideTol,
+    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, wgt_t sideTol,
             Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       //For each side
@@ -38,7 +38,7 @@ namespace engpar {
     }
 
     Targets(bool isHyper, double, Sides* s, agi::WeightPartitionMap* wp_map,
-            int sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
+            wgt_t sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       for (itr = s->begin();itr!=s->end();itr++) {
         int neighbor = itr->first;
@@ -64,14 +64,14 @@ namespace engpar {
       }
     }
   };
-  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs);
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs);
 }
 
 #endif
-- 
2.43.0


From 69a9ebce8f32e4728f4675ffbc451f84f3690cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 26/46] fix: an empty part does not count as -1 disconnected
 components

---
 partition/engpar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..bb1c0c7 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -48,7 +48,8 @@ namespace engpar {
     }
 
     g->destroyTag(visited);
-    return dis-1;
+    //A part without vertices has no components to be disconnected
+    return dis > 0 ? dis-1 : 0;
   }
 
   void evaluatePartition(agi::Ngraph* g,const char* name) {
-- 
2.43.0


From 438d4e1cd2df76aaf162211717ab6c37ddf7d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 27/46] fix: average every value of the partition evaluation,
 and no more

---
 partition/engpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index bb1c0c7..3648952 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -98,7 +98,7 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
       char prefix[100];
-- 
2.43.0


From bde48ef4c984b58b25af16fe40b797cf6210086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 28/46] fix: second adjacencies follow the requested edge type

---
 agi/agiConstruct.cpp | 8 ++++----
 agi/agiIterate.cpp   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 78b398a..845e89a 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -643,7 +643,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -664,7 +664,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -702,7 +702,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -731,7 +731,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index b5e61eb..b3e5831 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -123,7 +123,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From b411180ffdb8618d330a6ee48465a89e85f7c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 29/46] fix: a removed edge type that is not the last one stays
 as an empty type

---
 agi/agiConstruct.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 845e89a..c286020 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -513,8 +513,31 @@ namespace agi {
     edge_mapping[t].clear();
     delete [] edge_unmap[t];
     edge_unmap[t] = NULL;
+    delete [] vev_offsets[t];
+    vev_offsets[t] = NULL;
+    delete [] vev_lists[t];
+    vev_lists[t] = NULL;
+    delete [] eve_offsets[t];
+    eve_offsets[t] = NULL;
+    delete [] eve_lists[t];
+    eve_lists[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    else {
+      //The types after this one keep their number, so this one stays with no edges
+      edge_weights[t] = new wgt_t[0];
+      degree_list[t] = new lid_t[num_local_verts+1];
+      for (lid_t i=0;i<num_local_verts+1;i++)
+        degree_list[t][i] = 0;
+      edge_list[t] = new lid_t[0];
+      pin_degree_list[t] = new lid_t[1];
+      pin_degree_list[t][0] = 0;
+      pin_list[t] = new lid_t[0];
+      edge_unmap[t] = new gid_t[0];
+    }
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
-- 
2.43.0


From 59875a8457b0bee844aa089752b3fd9b12aaf640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 30/46] fix: define cengpar_createLocalSplitInput with the
 declared parameters, so the C symbol exists

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From 6f66ef7f2db6159a4c6300b10fd6e0c43c151953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 31/46] fix: setOriginalOwners returns without leaving its
 function in the log

---
 agi/agiVertex.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 6abe909..3843737 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -85,11 +85,11 @@ void Ngraph::setOriginalOwners() {
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
-    return;
-  original_owners = new part_t[num_local_verts];
-  for (lid_t i=0;i<num_local_verts;i++)
-    original_owners[i]=PCU_Comm_Self();
+  if (!original_owners) {
+    original_owners = new part_t[num_local_verts];
+    for (lid_t i=0;i<num_local_verts;i++)
+      original_owners[i]=PCU_Comm_Self();
+  }
   if (EnGPar_Is_Log_Open()) {
     EnGPar_End_Function();
   }
-- 
2.43.0


From 793ad4217c5c22e5a08a88eeffac01847d8d317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 32/46] fix: a serial balance() leaves its function open in the
 log

---
 partition/Diffusive/src/engpar_balancer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 46f629f..581e966 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -221,6 +221,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
-- 
2.43.0


From 9f94598fbae238817b7e6ed65dc4931e3042142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 33/46] fix: balanceWeights ends a log function it did not
 start

---
 partition/Diffusive/src/engpar_weightBalancer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5746dd3..2ae597d 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -119,10 +119,11 @@ namespace engpar {
   void WeightBalancer::balance() {
     WeightInput* inp = dynamic_cast<WeightInput*>(input);
     if (EnGPar_Is_Log_Open()) {
-      /*
-        TODO: write logging info for weight input
       char message[1000];
       sprintf(message,"balance() : \n");
+      EnGPar_Log_Function(message);
+      /*
+        TODO: write logging info for weight input
       //Log the input parameters
       sprintf(message,"%s priorities :",message);
       for (unsigned int i=0;i<inp->priorities.size();i++)
@@ -142,12 +143,12 @@ namespace engpar {
       sprintf(message,"%s selection_edge_type : %d\n",
               message,inp->selection_edge_type);
       sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
-
-      EnGPar_Log_Function(message);
       */
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("Ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
-- 
2.43.0


From a0bbe81200bd9fa69859a23b867fb60731419897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 34/46] fix: saving and loading graphs with paths of 250
 characters and more overflowed a buffer

---
 agi/agiIO.cpp | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..06b14e9 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -4,6 +4,8 @@
 #include <PCU.h>
 #include <cstring>
 #include <sys/stat.h>
+#include <sstream>
+#include <string>
 #include <pcu_io.h>
 namespace agi {
 
@@ -123,26 +125,16 @@ namespace agi {
 
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
-  void mkdir_r(const char *dir) {
-    char tmp[256];
-    char *p = NULL;
-    size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
-    len = strlen(tmp);
-    if(tmp[len - 1] == '/')
-      tmp[len - 1] = 0;
-    for(p = tmp + 1; *p; p++)
-      if(*p == '/') {
-        *p = 0;
-        mkdir(tmp, S_IRWXU);
-        *p = '/';
-      }
+  void mkdir_r(const std::string& dir) {
+    for (size_t p = dir.find('/',1); p!=std::string::npos; p = dir.find('/',p+1))
+      mkdir(dir.substr(0,p).c_str(), S_IRWXU);
   }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
+    std::stringstream name;
+    name<<prefix<<"_"<<PCU_Comm_Self()<<".bgd";
+    std::string filename = name.str();
     mkdir_r(filename);
-    struct pcu_file* file = pcu_fopen(filename,true,false);
+    struct pcu_file* file = pcu_fopen(filename.c_str(),true,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for saving: %s#.bgd\n",prefix);
       throw 1;
@@ -223,9 +215,10 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    struct pcu_file* file = pcu_fopen(filename,false,false);
+    std::stringstream name;
+    name<<prefix<<"_"<<PCU_Comm_Self()<<".bgd";
+    std::string filename = name.str();
+    struct pcu_file* file = pcu_fopen(filename.c_str(),false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
       throw 1;
@@ -257,7 +250,7 @@ namespace agi {
 
     if (EnGPar_Check_Verbosity(0) && !PCU_Comm_Self()) {
       //TODO: Add timing info
-      EnGPar_Status_Message("Loaded graph %s.\n",filename);
+      EnGPar_Status_Message("Loaded graph %s.\n",filename.c_str());
       printStats();
     }
   }
-- 
2.43.0


From 01abcd31c54658bbc433f718894ea38bc6e55632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 35/46] fix: writeVTK with paths of 250 characters and more
 overflowed a buffer

---
 agi/agiVTK.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..f1018e2 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,6 +1,7 @@
 #include "ngraph.h"
 #include <PCU.h>
 #include "agi.h"
+#include <sstream>
 namespace agi {
 
   void writePoints(Ngraph* g,FILE* f) {
@@ -249,11 +250,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
-    for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
-    }
+    for (int i=0;i<PCU_Comm_Peers();i++)
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
@@ -267,9 +265,9 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::stringstream filename;
+    filename<<prefix<<PCU_Comm_Self()<<".vtu";
+    FILE* f = fopen(filename.str().c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -287,9 +285,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix)+".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
-- 
2.43.0


From e35664cc51a2d17d4c8bfc9ce73c76e1a8836eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 36/46] fix: writeVTK drew edges to points the piece does not
 have

---
 agi/agiVTK.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f1018e2..7ccb241 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -137,20 +137,24 @@ namespace agi {
       while ((e = g->iterate(eitr))) {
         GraphVertex* u = g->u(e);
         GraphVertex* v = g->v(e);
-        fprintf(f,"%d %d\n",g->localID(u),g->localID(v));
+        //The remote end of an edge is not a point of this piece
+        if (g->owner(v)==PCU_Comm_Self())
+          fprintf(f,"%d %d\n",g->localID(u),g->localID(v));
       }
       g->destroy(eitr);
       int off=0;
       fprintf(f,"\n</DataArray>\n<DataArray type=\"Int32\" Name=\"offsets\" format=\"ascii\">\n");
       eitr = g->begin(0);
       while ((e = g->iterate(eitr))) {
-        fprintf(f," %d\n",off+=2);
+        if (g->owner(g->v(e))==PCU_Comm_Self())
+          fprintf(f," %d\n",off+=2);
       }
       g->destroy(eitr);
       fprintf(f,"\n</DataArray>\n<DataArray type=\"UInt8\" Name=\"types\" format=\"ascii\">\n");
       eitr = g->begin(0);
       while ((e = g->iterate(eitr))) {
-        fprintf(f," %d\n",3);
+        if (g->owner(g->v(e))==PCU_Comm_Self())
+          fprintf(f," %d\n",3);
       }
       g->destroy(eitr);
     }
@@ -228,8 +232,15 @@ namespace agi {
       g->destroy(eitr);
       return total;
     }
-    else
-      return g->numLocalEdges();
+    else {
+      gid_t total = 0;
+      EdgeIterator* eitr = g->begin(0);
+      GraphEdge* edge;
+      while ((edge = g->iterate(eitr)))
+        total+=(g->owner(g->v(edge))==PCU_Comm_Self());
+      g->destroy(eitr);
+      return total;
+    }
   }
 
   void writePPoints(FILE* pf) {
-- 
2.43.0


From a27b608fa06c00bb2d7b4dc705f10a0bf0974639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 37/46] fix: printStats overflowed its buffer with many edge
 types of many edges

---
 agi/agiConstruct.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index c286020..7ba218f 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -627,7 +627,8 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
+    //"Type <t>: <count> " for every edge type
+    char edges[16+MAX_TYPES*48];
     int n = sprintf(edges,"Edges: ");
     char* temp = edges + n;
     for (etype t = 0; t < numEdgeTypes(); t++) {
-- 
2.43.0


From ed4f6c052f2f04a76e96078235521a123b7ddfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 38/46] fix: evaluatePartition overflowed its buffers with
 names of six characters and more

---
 partition/engpar.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 3648952..17cce39 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -3,6 +3,7 @@
 #include "Diffusive/src/engpar_sides.h"
 #include <engpar_support.h>
 #include <engpar_metrics.h>
+#include <string>
 
 namespace engpar {
 
@@ -101,8 +102,8 @@ namespace engpar {
       for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      const std::string prefix_str = std::string("PARTITION ")+name;
+      const char* prefix = prefix_str.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -113,8 +114,8 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        const std::string edge_str = prefix_str+": Edges type "+std::to_string(i);
+        const char* edge_name = edge_str.c_str();
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
-- 
2.43.0


From 7b711601877af867fc62b0fa579d8e3f23fbe1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 39/46] fix: createBinGraph overflowed its log message with
 long paths

---
 interfaces/binGraph.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index f0b1b8a..467082b 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -16,9 +16,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ")+graph_file+"\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
-- 
2.43.0


From 256d0e17d0af6068f5176a0652dfc64980b9314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 40/46] fix: constructGhosts with arrays gave ids unknown on
 the part a vertex

---
 agi/agiConstruct.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 7ba218f..be91ce6 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -439,11 +439,10 @@ namespace agi {
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t i = 0;i<num_ghosts;i++) {
-      gid_t v = vert_ids[i];
-      lid_t lid = vtx_mapping[v]-num_local_verts;
-      if (lid<0)
+      std::unordered_map<gid_t,lid_t>::iterator itr = vtx_mapping.find(vert_ids[i]);
+      if (itr==vtx_mapping.end()||itr->second<num_local_verts)
         continue;
-      owners[lid] = owns[i];
+      owners[itr->second-num_local_verts] = owns[i];
     }
 
     for (etype t = 0;t<num_types;t++)  {
-- 
2.43.0


From a100de69188a519291cd37e6e1709234959448cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 41/46] fix: setCoords leaked the coordinates it replaced

---
 agi/agiVertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 3843737..1b9c941 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -37,7 +37,8 @@ bool Ngraph::hasCoords() const {
 }
 
 void Ngraph::setCoords(coord_t* cs) {
-  local_coords = new coord_t[num_local_verts];
+  if (!local_coords)
+    local_coords = new coord_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     for (int j=0;j<3;j++)
       local_coords[i][j] = cs[i][j];
-- 
2.43.0


From 5e4fdfcaade665ff5114d4bb222ee87adec130de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 42/46] fix: calling constructGhosts again leaked the owners
 and the weights of the ghosts

---
 agi/agiConstruct.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index be91ce6..0b6453c 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -385,7 +385,12 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    if (owners)
+      delete [] owners;
     owners = NULL;
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t v = 0;v<num_ghost_verts;v++) {
@@ -435,7 +440,12 @@ namespace agi {
       EnGPar_Log_Function(message);
     }
 
+    if (owners)
+      delete [] owners;
     owners = NULL;
+    if (ghost_weights)
+      destroyTag(ghost_weights);
+    ghost_weights = NULL;
     if (num_ghost_verts>0)
       owners = new part_t[num_ghost_verts];
     for (lid_t i = 0;i<num_ghosts;i++) {
-- 
2.43.0


From 40ab2229b9aacf9f8f43b32753e6e774e8f2cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:41 +0000
Subject: [PATCH 43/46] fix: isCut leaked the iterator over an edge that is not
 cut

---
 agi/agiEdge.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 943528d..fd71a75 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -50,6 +50,7 @@ namespace agi {
 	return true;
       }
     }
+    destroy(pitr);
     return false;
   }
 
-- 
2.43.0


From 4d5cace2766fbad5eb9d776363a2828465a65a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:48 +0000
Subject: [PATCH 44/46] fix: a selected cavity redirected vertices that were
 planned already without accounting for their weight

---
 partition/Diffusive/src/engpar_selector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 3fcad56..ef0a041 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -101,7 +101,8 @@ namespace engpar {
     wgt_t w=0.0;
     EdgeSet target_edges;
     for (itr = cav.begin();itr!=cav.end();itr++) {
-      if (plan->insert(std::make_pair(*itr,peer))) {
+      //A vertex that is planned already keeps the destination its weight is counted for
+      if (!plan->has(*itr) && plan->insert(std::make_pair(*itr,peer))) {
 	if (target_dimension==-1)
 	  w+= g->weight(*itr);
 	else {
-- 
2.43.0


From 1389e8393e9b94cd8645ce775fda072634a1d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:00 +0000
Subject: [PATCH 45/46] fix: a cleared weight migration plan kept the size it
 had before

---
 agi/agiWeightMigration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 3f12858..013a449 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -30,6 +30,7 @@ namespace agi {
 
   void WeightMigration::clear() {
     sending.clear();
+    s = 0;
   }
 
   WeightMigration::iterator WeightMigration::begin() const {
-- 
2.43.0


From c246125cbb288e64856f6551407bbb6aed1e0635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:00 +0000
Subject: [PATCH 46/46] fix: closing the debug files did not give the standard
 output back

---
 support/engpar_message.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/support/engpar_message.cpp b/support/engpar_message.cpp
index 943a7e5..2d7e005 100644
--- a/support/engpar_message.cpp
+++ b/support/engpar_message.cpp
@@ -3,14 +3,17 @@
 #include "engpar_support.h"
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <fcntl.h>
+#include <unistd.h>
 
-FILE* old_stdout=NULL;
+int old_stdout=-1;//descriptor of stdout before the debug files were opened
 FILE* old_stderr=NULL;
 void EnGPar_Debug_Open(std::string s) {
   if (!EnGPar_Check_Verbosity(0)) {
     return;
   }
-    
+  EnGPar_Debug_Close();
+
   char file[80];
   sprintf(file,"debug/debug%d.txt",PCU_Comm_Self());
 
@@ -21,31 +24,37 @@ void EnGPar_Debug_Open(std::string s) {
   if (!PCU_Comm_Self())
     EnGPar_Status_Message("Opening debug files. Output can be found in debug/debug#.txt\n");
   if (s.find("o")!=std::string::npos||s.find("e")!=std::string::npos) {
-    old_stdout = stdout;
-    stdout = freopen(file,"w",stdout);
-    if (!stdout) {
-      stdout = old_stdout;
+    fflush(stdout);
+    int saved = dup(fileno(stdout));
+    int fd = open(file,O_WRONLY|O_CREAT|O_TRUNC,0666);
+    if (saved<0 || fd<0 || dup2(fd,fileno(stdout))<0) {
+      if (saved>=0)
+        close(saved);
+      if (fd>=0)
+        close(fd);
       EnGPar_Error_Message("Failed to open debug files\n");
       return;
     }
-  
+    close(fd);
+    old_stdout = saved;
+
     if (s.find("e")!=std::string::npos) {
       old_stderr = stderr;
       stderr = stdout;
-      if (!stderr) {
-        stderr = old_stderr;
-        EnGPar_Error_Message("Failed to open debug files\n");
-        return;
-      }
     }
   }
 }
 
 void EnGPar_Debug_Close() {
-  if (old_stdout)
-    stdout = old_stdout;
   if (old_stderr)
     stderr = old_stderr;
+  old_stderr = NULL;
+  if (old_stdout>=0) {
+    fflush(stdout);
+    dup2(old_stdout,fileno(stdout));
+    close(old_stdout);
+    old_stdout = -1;
+  }
 }
 
 
-- 
2.43.0

