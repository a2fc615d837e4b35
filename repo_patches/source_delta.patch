From e19a9c093ce8eb68b79a1c3d3d066867361eebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 01/42] fix: create the ghost weights in the array form of
 constructGhosts

---
 agi/agiConstruct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index ee53d5c..b870116 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -465,6 +465,11 @@ namespace agi {
         num_global_pins[t] = 2*num_global_edges[t];
       }
     }
+
+    //Create the ghost weights
+    if (PCU_Comm_Peers() > 1)
+      ghost_weights = createDoubleGhostTag(weightTag);
+
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From 50193f236d246f5927ffdb31703b420f43816705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 02/42] fix: iterate both pins of a traditional self loop

---
 agi/agiIterate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index e6c5d84..64e5924 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -81,10 +81,10 @@ namespace agi {
       return vtx;
     }
     else {
+      //loc and end hold the source and destination, which may be equal
       GraphVertex* vtx = reinterpret_cast<GraphVertex*>(itr->loc);
-      if (itr->loc==itr->end)
-        itr->end=NULL;
       itr->loc=itr->end;
+      itr->end=NULL;
       return vtx;
     }
   }
-- 
2.43.0


From 7296a56403b8a524d088dd355c561ca2fff55cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/42] fix: keep each traditional edge's weight with its edge
 when edges are not grouped by source

---
 agi/agiConstruct.cpp | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index b870116..61d7988 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -221,8 +221,12 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
-    //Loop through edges again to build the edge lists
+    edge_weights[t] = new wgt_t[edge_ids.size()];
+    //Loop through edges again to build the edge lists and set the edge weights
     for (lid_t i=0;i<(lid_t)edge_ids.size();i++) {
+      wgt_t w = e_weights.size()==0 ? 1 : e_weights[i];
+      if (isHyperGraph)
+        edge_weights[t][i] = w;
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
         if (u>=num_local_verts){
@@ -239,22 +243,16 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //Traditional edges are numbered by their position in the edge_list
+            edge_weights[t][temp_counts[u]] = w;
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[edge_ids.size()];
-    if (e_weights.size()==0)
-      for (lid_t i=0;i<(lid_t)edge_ids.size();i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<(lid_t)e_weights.size();i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
@@ -329,7 +327,12 @@ namespace agi {
         ghost_unmap = new gid_t[num_ghost_verts];
     }
 
+    edge_weights[t] = new wgt_t[num_edges];
+    //Build the edge lists and set the edge weights
     for (lid_t i=0;i<num_edges;i++) {
+      wgt_t w = e_weights ? e_weights[i] : 1;
+      if (isHyperGraph)
+        edge_weights[t][i] = w;
       for (lid_t j=pin_degree_list[t][i];j<pin_degree_list[t][i+1];j++) {
         lid_t u = pin_list[t][j];
         if (u>=num_local_verts){
@@ -344,22 +347,16 @@ namespace agi {
           if (v>=num_local_verts){
             ghost_unmap[v-num_local_verts] = pins_to_verts[j];
           }
-          if (u<num_local_verts)
+          if (u<num_local_verts) {
+            //Traditional edges are numbered by their position in the edge_list
+            edge_weights[t][temp_counts[u]] = w;
             edge_list[t][temp_counts[u]++] = v;
+          }
         }
       }
     }
     free(temp_counts);
 
-    //Set the weights of the edges
-    edge_weights[t] = new wgt_t[num_edges];
-    if (!e_weights)
-      for (lid_t i=0;i<num_edges;i++) 
-        edge_weights[t][i] = 1;
-    else
-      for (lid_t i=0;i<num_edges;i++)
-        edge_weights[t][i] = e_weights[i];
-
     if (EnGPar_Is_Log_Open()) {
       EnGPar_End_Function();
     }
-- 
2.43.0


From db53035c622ab7c7ec38c6e70cb1039a99f93d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 04/42] fix: build second adjacencies from the requested edge
 type

---
 agi/agiConstruct.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 61d7988..8af0b10 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -632,7 +632,7 @@ namespace agi {
     while ((v = iterate(vitr))) {
       int count = 0;
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         count++;
@@ -653,7 +653,7 @@ namespace agi {
     //Populate the adjacency list by repeating the operation
     while ((v = iterate(vitr))) {
       std::unordered_set<GraphVertex*> unique_adj;
-      GraphIterator* gitr = adjacent(v);
+      GraphIterator* gitr = adjacent(v,t);
       GraphVertex* other;
       while ((other = iterate(gitr))) {
         if (compress)
@@ -691,7 +691,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           count++;
           unique_adj.insert(other);
@@ -720,7 +720,7 @@ namespace agi {
         if (owner(v)!=PCU_Comm_Self())
           continue;
         GraphEdge* other;
-        EdgeIterator* eitr2 = edges(v);
+        EdgeIterator* eitr2 = edges(v,t);
         while ((other = iterate(eitr2))) {
           if (compress)
             unique_adj.insert(other);
-- 
2.43.0


From 28ea7bba63887dc745f180992fc69549083a0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 05/42] fix: keep the edge type when advancing second adjacency
 iterators

---
 agi/agiIterate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agi/agiIterate.cpp b/agi/agiIterate.cpp
index 64e5924..133a57c 100644
--- a/agi/agiIterate.cpp
+++ b/agi/agiIterate.cpp
@@ -52,7 +52,7 @@ namespace agi {
     else
       index = vev_lists[type][id];
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     vevItr = reinterpret_cast<VEVIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphVertex*>(toPtr(index+1));
   }
@@ -122,7 +122,7 @@ namespace agi {
     else
       index = eve_lists[type][id]*num_types+type;
     id*=num_types;
-    id+=num_types;
+    id+=num_types+type;
     eveItr = reinterpret_cast<EVEIterator*>(toPtr(id+1));
     return reinterpret_cast<GraphEdge*>(toPtr(index+1));
   }
-- 
2.43.0


From f2ede1e83bee2340f1226f1516490acd21b7573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 06/42] fix: migrate the edges and ghost owners of every edge
 type

---
 agi/agiMigrate.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index ab73a41..8e81740 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -31,16 +31,18 @@ namespace agi {
       GraphVertex* v = *itr;
       gid_t gid = globalID(v);
       part_t toSend = plan->get(v);
-      GraphIterator* gitr = adjacent(v);
-      GraphVertex* other;
-      while ((other=iterate(gitr))) {
-        part_t own = owner(other);
-        if (own!=PCU_Comm_Self()) {
-          PCU_COMM_PACK(own,gid);
-          PCU_COMM_PACK(own,toSend);
+      for (etype t=0;t<num_types;t++) {
+        GraphIterator* gitr = adjacent(v,t);
+        GraphVertex* other;
+        while ((other=iterate(gitr))) {
+          part_t own = owner(other);
+          if (own!=PCU_Comm_Self()) {
+            PCU_COMM_PACK(own,gid);
+            PCU_COMM_PACK(own,toSend);
+          }
         }
+        destroy(gitr);
       }
-      destroy(gitr);
     }
     PCU_Comm_Send();
     while (PCU_Comm_Receive()) {
@@ -77,7 +79,7 @@ namespace agi {
       VertexVector::iterator itr;
       //loop through the vertices being sent
       for (itr = verts.begin();itr!=verts.end();itr++) {
-        GraphIterator* gitr =g->adjacent(*itr);
+        GraphIterator* gitr =g->adjacent(*itr,t);
         GraphEdge* e;
         GraphEdge* old=NULL;
         while ((g->iterate(gitr))) {
-- 
2.43.0


From e8f058c7032be542b7f2cca2a3b41af913eac7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 07/42] fix: keep a traditional edge on its source's part when
 only its destination migrates

---
 agi/agiMigrate.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/agi/agiMigrate.cpp b/agi/agiMigrate.cpp
index 8e81740..81a2c05 100644
--- a/agi/agiMigrate.cpp
+++ b/agi/agiMigrate.cpp
@@ -129,9 +129,15 @@ namespace agi {
     while ((e = g->iterate(itr))) {
       agi::PinIterator* pitr = g->pins(e);
       agi::GraphVertex* end;
-      while ((end=g->iterate(pitr)))
+      while ((end=g->iterate(pitr))) {
         if (plan->has(end))
           break;
+        //A traditional edge stays with its source vertex
+        if (!g->isHyper()) {
+          end=NULL;
+          break;
+        }
+      }
       g->destroy(pitr);
       if (!end) {
         //Add the Edge
@@ -145,6 +151,8 @@ namespace agi {
           gid_t other_gid = g->globalID(end);
           pins.push_back(other_gid);
           part_t owner = g->owner(end);
+          if (plan->has(end))
+            owner = plan->get(end);
 
           if (owner!=PCU_Comm_Self()) 
             ghost_owners[other_gid] = owner;          
-- 
2.43.0


From cfb6068b00cc352329b6b50cc7f10dc29c7665f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 08/42] fix: give each migration timer its own slot

---
 agi/agiMigrationTimers.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agi/agiMigrationTimers.cpp b/agi/agiMigrationTimers.cpp
index 4c79f4f..6873574 100644
--- a/agi/agiMigrationTimers.cpp
+++ b/agi/agiMigrationTimers.cpp
@@ -15,12 +15,11 @@ namespace agi {
   }
 
   void MigrationTimers::addTimer(std::string name) {
-    int idx = nameToIdx.size()+1;
+    int idx = names.size();
     nameToIdx[name] = idx;
     names.push_back(name);
     counts.push_back(0);
     times.push_back(0);
-    times[idx] = 0; // valgrind does not think times[idx] was initialized...
   }
 
   void MigrationTimers::update(std::string name, double val) {
-- 
2.43.0


From a0d6d9d59b2faebec530660998c1546358687b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 09/42] fix: add migrated weight to the vertex it was sent to

---
 agi/agiWeightMigrate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiWeightMigrate.cpp b/agi/agiWeightMigrate.cpp
index dd8c677..590518d 100644
--- a/agi/agiWeightMigrate.cpp
+++ b/agi/agiWeightMigrate.cpp
@@ -44,7 +44,7 @@ namespace agi {
       PCU_COMM_UNPACK(gid);
       PCU_COMM_UNPACK(w);
       agi::GraphVertex* mine = findGID(gid);
-      v_weights[numLocalVtxs() - 1]+=w;
+      v_weights[localID(mine)]+=w;
       wp_map[gid][other_gid] -= w;
     }
 
-- 
2.43.0


From 41f0ffb1a0d3fa2c4014c226f97487dbfc87c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 10/42] fix: reset the size of a cleared WeightMigration

---
 agi/agiWeightMigration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 3f12858..013a449 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -30,6 +30,7 @@ namespace agi {
 
   void WeightMigration::clear() {
     sending.clear();
+    s = 0;
   }
 
   WeightMigration::iterator WeightMigration::begin() const {
-- 
2.43.0


From 7a7fb32b396ea5ef4390b6055dbb0ac68a4b9dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 11/42] fix: leave a removed edge type empty instead of
 dangling

---
 agi/agiConstruct.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 8af0b10..274ac2f 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -502,8 +502,22 @@ namespace agi {
     edge_mapping[t].clear();
     delete [] edge_unmap[t];
     edge_unmap[t] = NULL;
+    delete [] vev_offsets[t];
+    vev_offsets[t] = NULL;
+    delete [] vev_lists[t];
+    vev_lists[t] = NULL;
+    delete [] eve_offsets[t];
+    eve_offsets[t] = NULL;
+    delete [] eve_lists[t];
+    eve_lists[t] = NULL;
     if (t==num_types-1)
       num_types--;
+    else {
+      //The later types keep their index, so type t stays with no edges
+      degree_list[t] = new lid_t[num_local_verts+1];
+      for (lid_t i=0;i<num_local_verts+1;i++)
+        degree_list[t][i] = 0;
+    }
   }
   
   void Ngraph::destroyData() {
-- 
2.43.0


From 16bbf107582709db60852041850b4219e2ca51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 12/42] fix: write the ghost points that the cells of
 traditional graphs refer to

---
 agi/agiVTK.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index f0de133..7eb6589 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -82,6 +82,11 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      //Write the position of each ghost vertex since the cells refer to them
+      for (lid_t i=0;i<g->numGhostVtxs();i++)
+        fprintf(f," %f %f %f\n",ghost_cs[i][0],ghost_cs[i][1],ghost_cs[i][2]);
+    }
     fprintf(f,"\n</DataArray>\n</Points>\n");
     delete [] ghost_cs;
   }
@@ -169,6 +174,13 @@ namespace agi {
       }
       g->destroy(eitr);
     }
+    else {
+      agi::GraphVertex* gv;
+      agi::GhostIterator* g_itr = g->beginGhosts();
+      while ((gv = g->iterate(g_itr))) {
+        fprintf(f,"%d\n",g->owner(gv));
+      }
+    }
     fprintf(f,"</DataArray>\n");
 
     if (g->isHyper()) {
@@ -206,6 +218,10 @@ namespace agi {
         }
         g->destroy(eitr);
       }
+      else {
+        for (lid_t i=0;i<g->numGhostVtxs();i++)
+          fprintf(f,"-1\n");
+      }
       fprintf(f,"</DataArray>\n");
     }
     fprintf(f,"</PointData>\n");
@@ -276,6 +292,8 @@ namespace agi {
     lid_t numPoints = g->numLocalVtxs();
     if (g->isHyper())
       numPoints+= g->numLocalEdges();
+    else
+      numPoints+= g->numGhostVtxs();
     fprintf(f,"<Piece NumberOfPoints=\"%d\" NumberOfCells=\"%ld\">\n",
             numPoints,numCells);
     writePoints(g,f);
-- 
2.43.0


From f100e686b07c2df3d8b2b3ca36c7f0054cf35d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 13/42] fix: seed the distance queue with an edge that exists

---
 partition/Diffusive/src/engpar_queue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index 8b1bf82..dc4865e 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -255,9 +255,9 @@ namespace engpar {
     //Setup Inputs for first BFS traversal
     Inputs* in1 = new Inputs;
     in1->seeds = new agi::lid_t[pg->num_local_edges[t]];
-    //If run in serial use edge 2 for the seed
+    //If run in serial use edge 2 for the seed (the last edge if there are fewer)
     if (g->numGhostVtxs()==0)
-       in1->seeds[in1->numSeeds++]=2;
+       in1->seeds[in1->numSeeds++] = pg->num_local_edges[t]>2 ? 2 : pg->num_local_edges[t]-1;
     //Otherwise use all edges that are shared across part boundaries
     else if (pg->isHyperGraph) {
       for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
-- 
2.43.0


From fa8880774fa549726001a1500d28a43f726ac184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 14/42] fix: drop the fixed size cavity histogram that large
 cavities overran

---
 partition/Diffusive/src/engpar_selector.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index c890e38..0b4b95f 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -28,16 +28,12 @@ namespace engpar {
   
   void Selector::constructCavities() {
     q->startIteration();
-    int cav_sizes[100];
-    for (int i =0; i < 100; ++i)
-      cav_sizes[i] = 0;
     Queue::iterator itr;
     for (itr = q->begin();itr!=q->end();itr++) {
       Cavity cav;
       getCavity(g, q->get(itr), cav);
       cavities.insert(std::make_pair(q->get(itr),cav));
       q->addElement(q->get(itr));
-      cav_sizes[cav.size()]++;
     }
   }
   
-- 
2.43.0


From c6eca4d6790c1d96482d3c1ed761ea3d134b448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 15/42] fix: hold the incoming weights of any number of
 completed dimensions

---
 partition/Diffusive/src/engpar_selector.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 0b4b95f..04a678e 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -269,11 +269,10 @@ namespace engpar {
   }
   struct Migr {
     Migr(int i) :
-      id(i), edge_types(0) {}
-    void addWeight(double w) {ws[edge_types++]=w;}
+      id(i) {}
+    void addWeight(double w) {ws.push_back(w);}
     int id;
-    double ws[5];
-    int edge_types;
+    std::vector<double> ws;
   };
   struct CompareMigr {
     //sort by part first completed edge type weights
-- 
2.43.0


From 25c22042e9476e8b0cdbefa3a41e6cf0f83d1217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 16/42] fix: skip cavities without peers when selecting
 disconnected vertices

---
 partition/Diffusive/src/engpar_selector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/partition/Diffusive/src/engpar_selector.cpp b/partition/Diffusive/src/engpar_selector.cpp
index 04a678e..0ea1a3d 100644
--- a/partition/Diffusive/src/engpar_selector.cpp
+++ b/partition/Diffusive/src/engpar_selector.cpp
@@ -229,6 +229,9 @@ namespace engpar {
       Cavity& cav = cavities[q->get(itr)];
       Peers peers;
       getCavityPeers(g,plan,cav,peers);
+      //The vertices of the cavity may all have been planned already
+      if (peers.empty())
+        continue;
       if (isPartiallyConnected(g,in->connectivityType,in->minConnectivity,plan,cav)) {
         addCavity(g,cav,*peers.begin(),plan,target_dimension);
       }
-- 
2.43.0


From 8167b4b8a24043d0ea17cc92c9df50d77cefb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 17/42] fix: average every value and hold any prefix in
 evaluatePartition

---
 partition/engpar.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 03d2ed8..1bfb21b 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -3,6 +3,8 @@
 #include "Diffusive/src/engpar_sides.h"
 #include <engpar_support.h>
 #include <engpar_metrics.h>
+#include <sstream>
+#include <string>
 
 namespace engpar {
 
@@ -97,11 +99,11 @@ namespace engpar {
     empty = PCU_Add_Int(empty);
     delete [] my_vals;
     if (!PCU_Comm_Self()) {
-      for (int i=0;i<5+g->numEdgeTypes();i++) {
+      for (int i=0;i<num_vals;i++) {
         avg[i] = total[i]/PCU_Comm_Peers();
       }
-      char prefix[100];
-      sprintf(prefix,"PARTITION %s",name);
+      std::string prefix_str = std::string("PARTITION ") + name;
+      const char* prefix = prefix_str.c_str();
       EnGPar_Status_Message("%s: Empty Parts: %d\n",prefix,empty);
       EnGPar_Status_Message("%s: Disconnected Components: <max,tot> %.3f %.3f\n",
                             prefix,max[0],total[0]);
@@ -112,8 +114,10 @@ namespace engpar {
       EnGPar_Status_Message("%s: Total Vertex: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",
                             prefix,max[3],min[3],avg[3],max[3]/avg[3]);
       for (int i=0;i<g->numEdgeTypes();i++) {
-        char edge_name[30];
-        sprintf(edge_name,"%s: Edges type %d",prefix,i);
+        std::stringstream edge_str;
+        edge_str << prefix << ": Edges type " << i;
+        std::string edge_name_str = edge_str.str();
+        const char* edge_name = edge_name_str.c_str();
         EnGPar_Status_Message("%s: <max,min,avg,imb> %.3f %.3f %.3f %.3f\n",edge_name,
                               max[4+i*2],min[4+i*2],avg[4+i*2],max[4+i*2]/avg[4+i*2]);
         EnGPar_Status_Message("%s Cut: <max,tot> %.3f %.3f\n", edge_name,
-- 
2.43.0


From a98d561398042f72100a7e9f5ab07bb88bf50e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 18/42] fix: only use the pull based BFS on hypergraphs

---
 partition/Diffusive/src/engpar_queue.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/partition/Diffusive/src/engpar_queue.cpp b/partition/Diffusive/src/engpar_queue.cpp
index dc4865e..a55f579 100644
--- a/partition/Diffusive/src/engpar_queue.cpp
+++ b/partition/Diffusive/src/engpar_queue.cpp
@@ -289,8 +289,10 @@ namespace engpar {
     for (agi::lid_t i=0;i<pg->num_local_edges[t];i++) {
       in1->visited[i] = -1;
     }
+    //The pull based BFS only handles hypergraphs
+    bool push = input->bfsPush || !pg->isHyperGraph;
     //Run first BFS using depth visit operation
-    if (input->bfsPush)
+    if (push)
       bfs_push(g,t,0,0,depth_visit,in1);
     else
       bfs_pull(g,t,0,0,depth_visit,in1);
@@ -337,7 +339,7 @@ namespace engpar {
         in2->labels[in2->seeds[i]] = i-start_seed;
       }
       //Run the bfs using the distance visit operation
-      if (input->bfsPush)
+      if (push)
         depth = bfs_push(g,t,start_seed,depth,distance_visit,in2);
       else
         depth = bfs_pull(g,t,start_seed,depth,distance_visit,in2);
-- 
2.43.0


From 3364f3c18970401323c61d3dd53ca855d573752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 19/42] fix: keep fractional edge weights when measuring the
 sides of a part

---
 partition/Diffusive/src/engpar_sides.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_sides.h b/partition/Diffusive/src/engpar_sides.h
index 7ee95ac..4509bf1 100644
--- a/partition/Diffusive/src/engpar_sides.h
+++ b/partition/Diffusive/src/engpar_sides.h
@@ -8,7 +8,7 @@
 #include "engpar_diffusive_input.h"
 
 namespace engpar {
-  class Sides : public Container<int>  {
+  class Sides : public Container<wgt_t>  {
   public:
     Sides(agi::Ngraph* g, agi::etype t) {
       agi::GraphEdge* edge;
-- 
2.43.0


From f068bdc3033c647ca702add1f56a3cdb84e4ffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 20/42] fix: ignore the side tolerance in weight diffusion
 whatever the edges weigh

---
 partition/Diffusive/src/engpar_weightBalancer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5a7cf9e..1054202 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -6,6 +6,7 @@
 #include <engpar_support.h>
 #include <agiMigration.h>
 #include "../engpar_weight_input.h"
+#include <limits>
 
 namespace engpar {
 
@@ -172,7 +173,7 @@ namespace engpar {
 
 
     //Set side tolerance to arbitrarily high number such that it will be ignored in targeting
-    sideTol = inp->g->numGlobalEdges()*10;
+    sideTol = std::numeric_limits<int>::max();
 
     char buffer[100];
     getImbalances(input->g,buffer);
-- 
2.43.0


From cc48515257d206f1f2cf1337c2dce4cb43cff48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 21/42] fix: report no disconnected components on an empty part

---
 partition/engpar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partition/engpar.cpp b/partition/engpar.cpp
index 1bfb21b..bfb3278 100644
--- a/partition/engpar.cpp
+++ b/partition/engpar.cpp
@@ -50,7 +50,8 @@ namespace engpar {
     }
 
     g->destroyTag(visited);
-    return dis-1;
+    //A part without vertices has no components
+    return dis > 0 ? dis-1 : 0;
   }
 
   void evaluatePartition(agi::Ngraph* g,const char* name) {
-- 
2.43.0


From acf095a05d610781b0af12151ae7d5a7dbdfdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 22/42] fix: give the ghosts of a binary edge list labels of
 their own

The ghost labelling looked local labels up as global ids: with more than
one process edges were redirected to other vertices.
---
 interfaces/binGraph.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index bc80493..b9b690a 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -290,10 +290,19 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   for (lid_t i=0;i<num_local_verts;i++)
     local_weights[i] = 1;
   int64_t cur_label = 0;
+  std::vector<int64_t> nonlocal_vids;
   for (int64_t i = 0; i < num_local_edges[t]*2; i++) {
     int64_t out = edge_list[t][i];
-    if (ranks[out] != PCU_Comm_Self())
+    if (ranks[out] != PCU_Comm_Self()) {
+      if (!createGhost)
+        continue;
+      if (vtx_mapping.count(out) == 0) {
+        vtx_mapping[out] = num_local_verts + nonlocal_vids.size();
+        nonlocal_vids.push_back(out);
+      }
+      edge_list[t][i] = vtx_mapping[out];
       continue;
+    }
     if (vtx_mapping.count(out) == 0) {
       vtx_mapping[out] = cur_label;
       local_unmap[cur_label] = out;
@@ -323,19 +332,7 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
   
 
   if (createGhost) {
-    cur_label = num_local_verts;
-    std::vector<int64_t> nonlocal_vids;
-    for (int64_t i = 0; i < num_local_edges[t]; ++i) {
-      int64_t out = edge_list[t][i];
-      if (vtx_mapping.find(out) ==vtx_mapping.end()) {
-        vtx_mapping[out] = cur_label;
-        edge_list[t][i] = cur_label++;
-        nonlocal_vids.push_back(out);
-      }
-      else if (vtx_mapping[out] >= num_local_verts)
-        edge_list[t][i] = vtx_mapping[out];
-    }
-    num_ghost_verts = cur_label - num_local_verts;
+    num_ghost_verts = nonlocal_vids.size();
     if (num_ghost_verts>0) {
       ghost_unmap = new gid_t[num_ghost_verts];
       owners = new int32_t[num_ghost_verts];
-- 
2.43.0


From b9c592c52a3b065cdd4a133a4cab2f3b178bd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 23/42] fix: label the vertices of a binary edge list that have
 no edges

Their global ids were left uninitialised.
---
 interfaces/binGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index b9b690a..e19c79d 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -311,6 +311,12 @@ int binGraph::exchange_edges(int64_t m_read, int64_t* read_edges,
     else        
       edge_list[t][i] = vtx_mapping[out];
   }
+  //Label the local vertices that have no edges
+  for (gid_t i = 0; i < num_global_verts; ++i)
+    if (ranks[i] == PCU_Comm_Self() && vtx_mapping.count(i) == 0) {
+      vtx_mapping[i] = cur_label;
+      local_unmap[cur_label++] = i;
+    }
   lid_t* tmp_edges = new lid_t[num_local_edges[t]];
   lid_t* temp_counts = new lid_t[num_local_verts];
   degree_list[t] = new lid_t[num_local_verts+1];
-- 
2.43.0


From 4d63a6fc5224da093540496e767686b8870be319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:15 +0000
Subject: [PATCH 24/42] fix: count the pins of the local vertices for Zoltan

---
 partition/Multilevel/engpar_zoltan.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/partition/Multilevel/engpar_zoltan.cpp b/partition/Multilevel/engpar_zoltan.cpp
index cb5dfc4..85600dc 100644
--- a/partition/Multilevel/engpar_zoltan.cpp
+++ b/partition/Multilevel/engpar_zoltan.cpp
@@ -122,8 +122,12 @@ namespace engpar {
   void numHyperedges(void* data, int* numVtxs, int* numPins, int* format, int* ierr) {
     agi::Ngraph* g = static_cast<agi::Ngraph*>(data);
     *numVtxs = g->numLocalVtxs();
-    //TODO: this number is inaccurate in parallel
-    *numPins = g->numLocalPins();
+    //The pins listed are those of the local vertices
+    *numPins = 0;
+    agi::GraphVertex* v;
+    agi::VertexIterator* vitr = g->begin();
+    while ((v = g->iterate(vitr)))
+      *numPins += g->degree(v);
     *format = ZOLTAN_COMPRESSED_VERTEX;
     *ierr = ZOLTAN_OK;
   }
-- 
2.43.0


From 454cc360b0be088309794beca364422eb6f28729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 25/42] fix: give Zoltan the owners of the ghosts in the large
 communicator

---
 partition/Multilevel/engpar_split.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/partition/Multilevel/engpar_split.cpp b/partition/Multilevel/engpar_split.cpp
index 969bf04..8570704 100644
--- a/partition/Multilevel/engpar_split.cpp
+++ b/partition/Multilevel/engpar_split.cpp
@@ -29,6 +29,9 @@ namespace engpar {
     agi::Migration* plan = NULL;
     inp->self = PCU_Comm_Self();
     if (method == ZOLTAN_PHG) {
+      //Zoltan needs the owners of the ghosts in terms of the large communicator
+      if (inp->isOriginal)
+        expandParts(inp->g,inp->largeComm);
       PCU_Switch_Comm(inp->largeComm);
       plan = EnGPar_Zoltan(inp,inp->total_parts,false);
       PCU_Switch_Comm(inp->smallComm);
@@ -49,7 +52,8 @@ namespace engpar {
         }
         PCU_Switch_Comm(inp->smallComm);
       }
-      expandParts(inp->g,inp->largeComm);
+      if (method != ZOLTAN_PHG)
+        expandParts(inp->g,inp->largeComm);
     }
     else {
       if (plan)
-- 
2.43.0


From 6b41740c5242c0e8305896339c406e492cdbe498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 26/42] fix: keep the local edges of every part in a local
 split

---
 partition/Multilevel/engpar_parmetis.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/partition/Multilevel/engpar_parmetis.cpp b/partition/Multilevel/engpar_parmetis.cpp
index f97764b..d90525a 100644
--- a/partition/Multilevel/engpar_parmetis.cpp
+++ b/partition/Multilevel/engpar_parmetis.cpp
@@ -57,11 +57,11 @@ namespace engpar {
         while ((other = g->iterate(pitr))) {
           if (other==vtx)
             continue;
-          agi::part_t owner = g->owner(other);
-          if (!isLocal || owner ==input->self)
+          //A local split only considers the vertices on this part
+          if (!isLocal || g->localID(other) < g->numLocalVtxs())
             neighbors[other]=1;
           if (!isLocal)
-            res.insert(owner);
+            res.insert(g->owner(other));
         }
         g->destroy(pitr);
       }
@@ -109,8 +109,8 @@ namespace engpar {
       g->destroy(gitr);
       for (VertexSet::iterator vsItr = neighbors.begin(); vsItr != neighbors.end(); vsItr++) {
         agi::GraphVertex* other = vsItr->first;
-        if (g->owner(other)==input->self) {
-          agi::lid_t lidv = g->localID(other);
+        agi::lid_t lidv = g->localID(other);
+        if (lidv < g->numLocalVtxs()) {
           adjncy[deg] = gids[lidv]; 
           ewgts[deg++] = vsItr->second;
         }
-- 
2.43.0


From fe01cf512d4533eda8bf5cc1bfd0f5302b692408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 27/42] fix: define cengpar_createLocalSplitInput as the header
 declares it

---
 interfaces/cengpar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/cengpar.cpp b/interfaces/cengpar.cpp
index cfac2ff..a8ed204 100644
--- a/interfaces/cengpar.cpp
+++ b/interfaces/cengpar.cpp
@@ -25,7 +25,7 @@ ngraph cengpar_createEmptyGraph() {
 
 
 engparInput cengpar_createLocalSplitInput(ngraph g, MPI_Fint smallComm, MPI_Fint largeComm,
-    bool isOrig, int splitFactor, double tol, agi::etype t, agi::part_t* ranks) {
+    bool isOrig, int splitFactor, double tol, agi::part_t* ranks, agi::etype t) {
   MPI_Comm s = MPI_Comm_f2c(smallComm);
   MPI_Comm l = MPI_Comm_f2c(largeComm);
   agi::Ngraph* ng = (agi::Ngraph*)g;
-- 
2.43.0


From c34e3bf6d893d2de0b649d27d659e50e8b0667bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 28/42] fix: isCut destroys its pin iterator when the edge is
 not cut

---
 agi/agiEdge.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agi/agiEdge.cpp b/agi/agiEdge.cpp
index 1eb3f14..295ff8b 100644
--- a/agi/agiEdge.cpp
+++ b/agi/agiEdge.cpp
@@ -50,6 +50,7 @@ namespace agi {
 	return true;
       }
     }
+    destroy(pitr);
     return false;
   }
 
-- 
2.43.0


From fa39bd3ca443e764ed374356c9ec6be4e1fd535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 29/42] fix: printStats overran its buffer when several edge
 types have many edges

---
 agi/agiConstruct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 274ac2f..4adc5b8 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -607,7 +607,7 @@ namespace agi {
     else
       EnGPar_Status_Message("N-graph Status\n");
     EnGPar_Status_Message("Vertices: %ld\n", numGlobalVtxs());
-    char edges[100];
+    char edges[40*MAX_TYPES+10];
     int n = sprintf(edges,"Edges: ");
     char* temp = edges + n;
     for (etype t = 0; t < numEdgeTypes(); t++) {
-- 
2.43.0


From 2f5194f6aa01cd4bd67e27b6da3f07b516e126c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 30/42] fix: close every entry of the log (setOriginalOwners,
 removeEdges, serial balance) and none that was not opened (balanceWeights)

---
 agi/agiConstruct.cpp                              |  3 +++
 agi/agiVertex.cpp                                 | 10 +++++-----
 partition/Diffusive/src/engpar_balancer.cpp       |  2 ++
 partition/Diffusive/src/engpar_weightBalancer.cpp |  2 --
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/agi/agiConstruct.cpp b/agi/agiConstruct.cpp
index 4adc5b8..e50dabe 100644
--- a/agi/agiConstruct.cpp
+++ b/agi/agiConstruct.cpp
@@ -518,6 +518,9 @@ namespace agi {
       for (lid_t i=0;i<num_local_verts+1;i++)
         degree_list[t][i] = 0;
     }
+    if (EnGPar_Is_Log_Open()) {
+      EnGPar_End_Function();
+    }
   }
   
   void Ngraph::destroyData() {
diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 55ed6ef..4ead233 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -85,11 +85,11 @@ void Ngraph::setOriginalOwners() {
     sprintf(message,"setOriginalOwners\n");
     EnGPar_Log_Function(message);
   }
-  if (original_owners)
-    return;
-  original_owners = new part_t[num_local_verts];
-  for (lid_t i=0;i<num_local_verts;i++)
-    original_owners[i]=PCU_Comm_Self();
+  if (!original_owners) {
+    original_owners = new part_t[num_local_verts];
+    for (lid_t i=0;i<num_local_verts;i++)
+      original_owners[i]=PCU_Comm_Self();
+  }
   if (EnGPar_Is_Log_Open()) {
     EnGPar_End_Function();
   }
diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index f470942..3afd089 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -221,6 +221,8 @@ namespace engpar {
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
+      if (EnGPar_Is_Log_Open())
+        EnGPar_End_Function();
       return;
     }
 
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 1054202..1f65f84 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -215,8 +215,6 @@ namespace engpar {
       }
     }
     */
-    if (EnGPar_Is_Log_Open())
-      EnGPar_End_Function();
   }
 
   void balanceWeights(WeightInput* in, int v_) {
-- 
2.43.0


From 4b6fedf705319c6c820e74df18540d6248eb4ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 31/42] fix: file names longer than 255 characters overran
 fixed size buffers (save/load, VTK, edge list log entry)

---
 agi/agiIO.cpp           | 41 +++++++++++++++++++----------------------
 agi/agiVTK.cpp          | 20 +++++++++-----------
 interfaces/binGraph.cpp |  5 ++---
 3 files changed, 30 insertions(+), 36 deletions(-)

diff --git a/agi/agiIO.cpp b/agi/agiIO.cpp
index 52d0310..5bab8fd 100644
--- a/agi/agiIO.cpp
+++ b/agi/agiIO.cpp
@@ -2,7 +2,7 @@
 #include "ngraph.h"
 #include <stdio.h>
 #include <PCU.h>
-#include <cstring>
+#include <string>
 #include <sys/stat.h>
 #include <pcu_io.h>
 namespace agi {
@@ -124,25 +124,23 @@ namespace agi {
   //Recursive mkdir function modified from here:
   //http://nion.modprobe.de/blog/archives/357-Recursive-directory-creation.html
   void mkdir_r(const char *dir) {
-    char tmp[256];
-    char *p = NULL;
-    size_t len;
-    snprintf(tmp, sizeof(tmp),"%s",dir);
-    len = strlen(tmp);
-    if(tmp[len - 1] == '/')
-      tmp[len - 1] = 0;
-    for(p = tmp + 1; *p; p++)
-      if(*p == '/') {
-        *p = 0;
-        mkdir(tmp, S_IRWXU);
-        *p = '/';
-      }
+    std::string tmp(dir);
+    if (tmp.size() && tmp[tmp.size() - 1] == '/')
+      tmp.erase(tmp.size() - 1);
+    for (size_t p = 1; p < tmp.size(); p++)
+      if (tmp[p] == '/')
+        mkdir(tmp.substr(0,p).c_str(), S_IRWXU);
+  }
+  //The path of the file of this process (of any length)
+  std::string bgdFileName(const char* prefix) {
+    char suffix[20];
+    sprintf(suffix,"_%d.bgd",PCU_Comm_Self());
+    return std::string(prefix)+suffix;
   }
   void Ngraph::saveToFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    mkdir_r(filename);
-    struct pcu_file* file = pcu_fopen(filename,true,false);
+    std::string filename = bgdFileName(prefix);
+    mkdir_r(filename.c_str());
+    struct pcu_file* file = pcu_fopen(filename.c_str(),true,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for saving: %s#.bgd\n",prefix);
       throw 1;
@@ -223,9 +221,8 @@ namespace agi {
   }
 
   void Ngraph::loadFromFile(const char* prefix) {
-    char filename[256];
-    sprintf(filename,"%s_%d.bgd",prefix,PCU_Comm_Self());
-    struct pcu_file* file = pcu_fopen(filename,false,false);
+    std::string filename = bgdFileName(prefix);
+    struct pcu_file* file = pcu_fopen(filename.c_str(),false,false);
     if (!file) {
       EnGPar_Error_Message("Could not open file for loading: %s#.bgd",prefix);
       throw 1;
@@ -257,7 +254,7 @@ namespace agi {
 
     if (EnGPar_Check_Verbosity(0) && !PCU_Comm_Self()) {
       //TODO: Add timing info
-      EnGPar_Status_Message("Loaded graph %s.\n",filename);
+      EnGPar_Status_Message("Loaded graph %s.\n",filename.c_str());
       printStats();
     }
   }
diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index 7eb6589..c3d0353 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,5 +1,7 @@
 #include "ngraph.h"
 #include <PCU.h>
+#include <sstream>
+#include <string>
 #include "agi.h"
 namespace agi {
 
@@ -265,11 +267,8 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
-    char filename[256];
-    for (int i=0;i<PCU_Comm_Peers();i++) {
-      sprintf(filename,"%s%d.vtu",prefix,i);
-      fprintf(pf,"<Piece Source=\"%s\"/>\n",filename);
-    }
+    for (int i=0;i<PCU_Comm_Peers();i++)
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
@@ -283,9 +282,9 @@ namespace agi {
 
   }
   void writeVTK(Ngraph* g, const char* prefix,GraphTag* tag,etype t) {
-    char filename[256];
-    sprintf(filename,"%s%d.vtu",prefix,PCU_Comm_Self());
-    FILE* f = fopen(filename,"w");
+    std::stringstream filename;
+    filename << prefix << PCU_Comm_Self() << ".vtu";
+    FILE* f = fopen(filename.str().c_str(),"w");
     fprintf(f,"<VTKFile type=\"UnstructuredGrid\">\n");
     fprintf(f,"<UnstructuredGrid>\n");
     gid_t numCells = getNumCells(g);
@@ -305,9 +304,8 @@ namespace agi {
     fclose(f);
 
     if (!PCU_Comm_Self()) {
-      char pfilename[256];
-      sprintf(pfilename,"%s.pvtu",prefix);
-      FILE* pf = fopen(pfilename,"w");
+      std::string pfilename = std::string(prefix) + ".pvtu";
+      FILE* pf = fopen(pfilename.c_str(),"w");
       writePVTU(pf,prefix,g,tag,t);
       fclose(pf);
     }
diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index e19c79d..8bfb217 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -16,9 +16,8 @@ namespace agi {
 
 Ngraph* createBinGraph(char* graph_file,char* part_file) {
   if (EnGPar_Is_Log_Open()) {
-    char message[256];
-    sprintf(message,"createBinGraph %s\n",graph_file);
-    EnGPar_Log_Function(message);
+    std::string message = std::string("createBinGraph ")+graph_file+"\n";
+    EnGPar_Log_Function(&message[0]);
     EnGPar_End_Function();
   }
 
-- 
2.43.0


From 3df87779729c07e29d669b7c00d4a5fb8b6773ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 32/42] fix: the pvtu file named its pieces by a path that is
 only right when it is in the current directory

---
 agi/agiVTK.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agi/agiVTK.cpp b/agi/agiVTK.cpp
index c3d0353..8e0b424 100644
--- a/agi/agiVTK.cpp
+++ b/agi/agiVTK.cpp
@@ -1,5 +1,6 @@
 #include "ngraph.h"
 #include <PCU.h>
+#include <cstring>
 #include <sstream>
 #include <string>
 #include "agi.h"
@@ -267,8 +268,11 @@ namespace agi {
   }
 
   void writePSources(FILE* pf, const char* prefix) {
+    //The pieces are named relative to the directory of the pvtu file
+    const char* slash = strrchr(prefix,'/');
+    const char* name = slash ? slash+1 : prefix;
     for (int i=0;i<PCU_Comm_Peers();i++)
-      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",prefix,i);
+      fprintf(pf,"<Piece Source=\"%s%d.vtu\"/>\n",name,i);
   }
   
   void writePVTU(FILE* pf,const char* prefix, agi::Ngraph* g, GraphTag* tag, etype t) {
-- 
2.43.0


From 30d6e5bb3ad22955979e04dfed0df7808c47f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 33/42] fix: keep the side tolerance of the balancer in the
 type of the weights

---
 partition/Diffusive/src/engpar_balancer.cpp       |  5 +++--
 partition/Diffusive/src/engpar_balancer.h         |  2 +-
 partition/Diffusive/src/engpar_make.cpp           |  6 +++---
 partition/Diffusive/src/engpar_targets.h          | 10 +++++-----
 partition/Diffusive/src/engpar_weightBalancer.cpp |  2 +-
 5 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 3afd089..4f1a01a 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -4,6 +4,7 @@
 #include <engpar_metrics.h>
 #include <engpar_support.h>
 #include <agiMigration.h>
+#include <cmath>
 namespace {
   void printMigrationStats(agi::MigrationTimers* migrTime) {
     double maxSetup = migrTime->processMax("setup");
@@ -253,7 +254,7 @@ namespace engpar {
         tol = inp->tolerances[index];
       //Set side tolerance
       Sides* sides = makeSides(inp);
-      sideTol = averageSides(sides);
+      sideTol = floor(averageSides(sides));
 
       if (inp->runPartWeightBalancer) {
         if (!PCU_Comm_Self())
@@ -275,7 +276,7 @@ namespace engpar {
         }
       }
       if (!PCU_Comm_Self() && verbosity >= 2)
-        EnGPar_Status_Message("Side Tolerance is: %d\n", sideTol);
+        EnGPar_Status_Message("Side Tolerance is: %.0f\n", sideTol);
 
       //Run diffusion
       int rc;
diff --git a/partition/Diffusive/src/engpar_balancer.h b/partition/Diffusive/src/engpar_balancer.h
index ba4ef27..f44878d 100644
--- a/partition/Diffusive/src/engpar_balancer.h
+++ b/partition/Diffusive/src/engpar_balancer.h
@@ -34,7 +34,7 @@ namespace engpar {
     Input* input;
     double totStepTime;
     double distance_time;
-    int sideTol;
+    wgt_t sideTol;
     agi::Ngraph* weightGraph;
     agi::MigrationTimers* migrTime;
   };
diff --git a/partition/Diffusive/src/engpar_make.cpp b/partition/Diffusive/src/engpar_make.cpp
index 39deda4..82675fe 100644
--- a/partition/Diffusive/src/engpar_make.cpp
+++ b/partition/Diffusive/src/engpar_make.cpp
@@ -16,17 +16,17 @@ namespace engpar {
   Weights* makeWeights(agi::Ngraph* g, bool countGhosts, Sides* s, int target) {
     return new Weights(g,countGhosts,s,target);
   }
-  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHG, double sf, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(isHG, sf,s,tW,sT,cWs,cTs);
   }
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,tW,sT,cWs,cTs);
   }
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs) {
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs) {
     return new Targets(in->g->isHyper(),in->step_factor,s,wp_map,sT,cWs,cTs);
   }
 
diff --git a/partition/Diffusive/src/engpar_targets.h b/partition/Diffusive/src/engpar_targets.h
index 7c74ea0..ce1eb54 100644
--- a/partition/Diffusive/src/engpar_targets.h
+++ b/partition/Diffusive/src/engpar_targets.h
@@ -9,7 +9,7 @@ namespace engpar {
 
   class Targets : public Container<wgt_t> {
   public:
-    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, int sideTol,
+    Targets(bool isHyper, double step_factor, Sides* s, Weights* targetW, wgt_t sideTol,
             Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       //For each side
@@ -38,7 +38,7 @@ namespace engpar {
     }
 
     Targets(bool isHyper, double, Sides* s, agi::WeightPartitionMap* wp_map,
-            int sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
+            wgt_t sideTol, Weights** completedWs,std::vector<wgt_t>& completedTolerances) {
       Sides::iterator itr;
       for (itr = s->begin();itr!=s->end();itr++) {
         int neighbor = itr->first;
@@ -64,14 +64,14 @@ namespace engpar {
       }
     }
   };
-  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(bool isHyper, double step_factor, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
-  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,int sT,
+  Targets* makeTargets(DiffusiveInput* in, Sides* s, Weights* tW,wgt_t sT,
                        Weights** cWs,std::vector<wgt_t>& cTs);
 
   Targets* makePartWeightTargets(DiffusiveInput* in, Sides* s, agi::WeightPartitionMap* wp_map,
-                                 int sT, Weights** cWs, std::vector<wgt_t>& cTs);
+                                 wgt_t sT, Weights** cWs, std::vector<wgt_t>& cTs);
 }
 
 #endif
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 1f65f84..5aef10a 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -173,7 +173,7 @@ namespace engpar {
 
 
     //Set side tolerance to arbitrarily high number such that it will be ignored in targeting
-    sideTol = std::numeric_limits<int>::max();
+    sideTol = std::numeric_limits<wgt_t>::max();
 
     char buffer[100];
     getImbalances(input->g,buffer);
-- 
2.43.0


From 41637e4891a301923137a08b395e212efd684784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 34/42] fix: plan and count transfers of weight in the type of
 the weights

---
 agi/agiMigration.h                                | 2 +-
 agi/agiWeightMigration.cpp                        | 2 +-
 partition/Diffusive/src/engpar_weightBalancer.cpp | 6 +++---
 partition/Diffusive/src/engpar_weightSelector.cpp | 5 +++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/agi/agiMigration.h b/agi/agiMigration.h
index 328d7a2..3e3330a 100644
--- a/agi/agiMigration.h
+++ b/agi/agiMigration.h
@@ -90,7 +90,7 @@ namespace agi {
   public:
     WeightMigration(Ngraph*);
     ~WeightMigration();
-    lid_t size() const;
+    wgt_t size() const;
 
     bool  has(GraphVertex*) const;
     bool  has(GraphVertex*, GraphVertex*) const;
diff --git a/agi/agiWeightMigration.cpp b/agi/agiWeightMigration.cpp
index 013a449..29b5e71 100644
--- a/agi/agiWeightMigration.cpp
+++ b/agi/agiWeightMigration.cpp
@@ -9,7 +9,7 @@ namespace agi {
   WeightMigration::~WeightMigration() {
   }
 
-  lid_t WeightMigration::size() const {
+  wgt_t WeightMigration::size() const {
     return s;
   }
   bool WeightMigration::has(GraphVertex* v) const {
diff --git a/partition/Diffusive/src/engpar_weightBalancer.cpp b/partition/Diffusive/src/engpar_weightBalancer.cpp
index 5aef10a..18bac7f 100644
--- a/partition/Diffusive/src/engpar_weightBalancer.cpp
+++ b/partition/Diffusive/src/engpar_weightBalancer.cpp
@@ -87,8 +87,8 @@ namespace engpar {
     delete selector;
 
     stepTime = PCU_Time()-stepTime;
-    int numMigrate = plan->size();
-    numMigrate = PCU_Add_Int(numMigrate);
+    wgt_t numMigrate = plan->size();
+    numMigrate = PCU_Add_Double(numMigrate);
 
     if (numMigrate>0)
       input->g->migrate(plan, migrTime);
@@ -108,7 +108,7 @@ namespace engpar {
       if (!PCU_Comm_Self()) {
         if (sd->isFull())
           EnGPar_Status_Message("    Slope: %f\n",sd->slope());
-        EnGPar_Status_Message("    Migrating %d weight took %f seconds\n",numMigrate, 0.0);//migrTime->getTime("total"));
+        EnGPar_Status_Message("    Migrating %.0f weight took %f seconds\n",numMigrate, 0.0);//migrTime->getTime("total"));
       }
     }
 
diff --git a/partition/Diffusive/src/engpar_weightSelector.cpp b/partition/Diffusive/src/engpar_weightSelector.cpp
index a0a6685..566efa9 100644
--- a/partition/Diffusive/src/engpar_weightSelector.cpp
+++ b/partition/Diffusive/src/engpar_weightSelector.cpp
@@ -1,5 +1,6 @@
 #include "engpar_weightSelector.h"
 #include <agiMigration.h>
+#include <cmath>
 namespace engpar {
 
   /*Given a graph edge find:
@@ -37,9 +38,9 @@ namespace engpar {
       for (cav_itr = cav.begin(); cav_itr != cav.end(); ++cav_itr) {
         part_t owner = in->g->owner(*cav_itr);
         if (targets->has(owner) && sending[owner] < targets->get(owner)) {
-          int x = w * alpha / cav.size();
+          wgt_t x = trunc(w * alpha / cav.size());
           if (x > targets->get(owner) - sending[owner])
-            x = targets->get(owner) - sending[owner];
+            x = trunc(targets->get(owner) - sending[owner]);
           //Add to plan
           plan->insert(mine, *cav_itr, x);
           sending[owner] += x;
-- 
2.43.0


From 062a4bca7aa38fd72526d5c75d398abf69e62e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 35/42] fix: setCoords lost the array it replaces

---
 agi/agiVertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agi/agiVertex.cpp b/agi/agiVertex.cpp
index 4ead233..7c4b009 100644
--- a/agi/agiVertex.cpp
+++ b/agi/agiVertex.cpp
@@ -37,7 +37,8 @@ bool Ngraph::hasCoords() const {
 }
 
 void Ngraph::setCoords(coord_t* cs) {
-  local_coords = new coord_t[num_local_verts];
+  if (!local_coords)
+    local_coords = new coord_t[num_local_verts];
   for (lid_t i=0;i<num_local_verts;i++)
     for (int j=0;j<3;j++)
       local_coords[i][j] = cs[i][j];
-- 
2.43.0


From f32e4dabf6ea454dccad07f94b26dbd51675a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 36/42] fix: checkValidity left the other processes waiting
 when one found an error

---
 agi/agiValid.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index b7e60ff..5e69512 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -4,6 +4,9 @@
 namespace agi {
 
   bool checkValidity(Ngraph* g) {
+    //The counts below are summed over all processes, so a process that finds an
+    //error has to go on to the end
+    bool valid = true;
     lid_t i =0;
     VertexIterator* vitr = g->begin();
     GraphVertex* vtx;
@@ -13,13 +16,13 @@ namespace agi {
     if(g->numLocalVtxs()!=i) {
       EnGPar_Error_Message("Number of local vertices does not match the number of "
                            "vertices on process %d\n", PCU_Comm_Self());
-      return false;
+      valid = false;
     }
     lid_t ig = PCU_Add_Long(i);
     if(g->numGlobalVtxs()!=ig) {
       EnGPar_Error_Message("Number of global vertices does not match the sum of "
                            "the number of vertices on each process\n");
-      return false;
+      valid = false;
     }
     vitr = g->begin();
     while ((vtx = g->iterate(vitr))) {
@@ -33,7 +36,7 @@ namespace agi {
         if(g->degree(vtx,t)!=j) {
           EnGPar_Error_Message("Process: %d Degree of vertex %ld does not match the "
                                "number of edges adjacent to it.", PCU_Comm_Self(),vtx);
-          return false;
+          valid = false;
         }
       }
     }
@@ -54,7 +57,7 @@ namespace agi {
             EnGPar_Error_Message("Process %d: Vertex, %ld, is connected to edge, %ld, "
                                  "but the edge is not connected to the vertex\n",
                                  PCU_Comm_Self(),g->globalID(vtx),g->globalID(edge));
-            return false;
+            valid = false;
           }
           g->destroy(pitr);
         }
@@ -89,24 +92,24 @@ namespace agi {
       if(i!=g->numLocalEdges(t)) {
         EnGPar_Error_Message("Process %d: Number of local edges does not match "
                              "the number of actual edges\n",PCU_Comm_Self());
-        return false;
+        valid = false;
       }
       j = PCU_Add_Long(j);
       if(j!=g->numGlobalEdges(t)) {
         EnGPar_Error_Message("Number of global edges does not match the sum of "
                              "the number of edges on each process\n");
-        return false;
+        valid = false;
       }
       if(l!=g->numLocalPins(t)) {
         EnGPar_Error_Message("Process %d: Number of local pins does not match "
                              "the number of actual pins\n",PCU_Comm_Self());
-        return false;
+        valid = false;
       }
       k = PCU_Add_Long(k);
       if(k!=g->numGlobalPins(t)) {
         EnGPar_Error_Message("Number of global pins does not match the sum of "
                              "the number of pins on each process\n");
-        return false;
+        valid = false;
       }
       eitr = g->begin(t);
       while ((edge = g->iterate(eitr))) {
@@ -119,7 +122,7 @@ namespace agi {
         if(g->degree(edge)!=j) {
           EnGPar_Error_Message("Process: %d Degree of edge %ld does not match the "
                                "number of vertices that it connects.", PCU_Comm_Self(),vtx);
-          return false;
+          valid = false;
         }
       }
       g->destroy(eitr);
@@ -131,17 +134,17 @@ namespace agi {
       if(g->owner(gv)==PCU_Comm_Self()) {
         EnGPar_Error_Message("Process %d: invalid ghost vertex, %d, that is owned by itself\n",
                              PCU_Comm_Self(),g->globalID(gv));
-        return false;
+        valid = false;
       }
       if(g->owner(gv)>=PCU_Comm_Peers()) {
         EnGPar_Error_Message("Process %d: ghost vertex, %d, is owned by a process that does "
                              "not exist\n", PCU_Comm_Self(),g->globalID(gv));
                              
-        return false;
+        valid = false;
       }
     }
     
-    return true;
+    return valid;
   }
   
   
-- 
2.43.0


From 6b65d6cf831a0afca3a0c592c4b2756362d2d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 37/42] fix: checkValidity accepted a ghost whose owner is
 negative

---
 agi/agiValid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agi/agiValid.cpp b/agi/agiValid.cpp
index 5e69512..8818982 100644
--- a/agi/agiValid.cpp
+++ b/agi/agiValid.cpp
@@ -136,7 +136,7 @@ namespace agi {
                              PCU_Comm_Self(),g->globalID(gv));
         valid = false;
       }
-      if(g->owner(gv)>=PCU_Comm_Peers()) {
+      if(g->owner(gv)<0||g->owner(gv)>=PCU_Comm_Peers()) {
         EnGPar_Error_Message("Process %d: ghost vertex, %d, is owned by a process that does "
                              "not exist\n", PCU_Comm_Self(),g->globalID(gv));
                              
-- 
2.43.0


From 47643ab6423fd7604ffeefc0b5dc353454b4484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 38/42] fix: EnGPar_Finalize in a later cycle stopped a PCU
 that the program had started

---
 support/engpar_support.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/engpar_support.cpp b/support/engpar_support.cpp
index d309b21..bcd77e4 100644
--- a/support/engpar_support.cpp
+++ b/support/engpar_support.cpp
@@ -21,6 +21,7 @@ void EnGPar_Finalize() {
   EnGPar_Close_Log();
   if (handlingPCU &&PCU_Comm_Initialized())
     PCU_Comm_Free();
+  handlingPCU=false;
 }
 
 void EnGPar_Switch_Comm(MPI_Comm comm) {
-- 
2.43.0


From 4fe7d4b638f53cba06d59823fac423d5e92a6461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 39/42] fix: EnGPar_Debug_Close did not restore the standard
 output

---
 support/engpar_message.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/support/engpar_message.cpp b/support/engpar_message.cpp
index 943a7e5..e908914 100644
--- a/support/engpar_message.cpp
+++ b/support/engpar_message.cpp
@@ -3,14 +3,16 @@
 #include "engpar_support.h"
 #include <sys/types.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
-FILE* old_stdout=NULL;
+int old_stdout=-1;
 FILE* old_stderr=NULL;
 void EnGPar_Debug_Open(std::string s) {
   if (!EnGPar_Check_Verbosity(0)) {
     return;
   }
-    
+  EnGPar_Debug_Close();
+
   char file[80];
   sprintf(file,"debug/debug%d.txt",PCU_Comm_Self());
 
@@ -21,10 +23,9 @@ void EnGPar_Debug_Open(std::string s) {
   if (!PCU_Comm_Self())
     EnGPar_Status_Message("Opening debug files. Output can be found in debug/debug#.txt\n");
   if (s.find("o")!=std::string::npos||s.find("e")!=std::string::npos) {
-    old_stdout = stdout;
-    stdout = freopen(file,"w",stdout);
-    if (!stdout) {
-      stdout = old_stdout;
+    fflush(stdout);
+    old_stdout = dup(fileno(stdout));
+    if (!freopen(file,"w",stdout)) {
       EnGPar_Error_Message("Failed to open debug files\n");
       return;
     }
@@ -42,10 +43,15 @@ void EnGPar_Debug_Open(std::string s) {
 }
 
 void EnGPar_Debug_Close() {
-  if (old_stdout)
-    stdout = old_stdout;
   if (old_stderr)
     stderr = old_stderr;
+  old_stderr = NULL;
+  if (old_stdout >= 0) {
+    fflush(stdout);
+    dup2(old_stdout,fileno(stdout));
+    close(old_stdout);
+  }
+  old_stdout = -1;
 }
 
 
-- 
2.43.0


From 11fccadbfd062992d2f7b7df7bac71ec3e28b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 40/42] fix: data lost when closing a file was not noticed

---
 pcu/pcu_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcu/pcu_io.c b/pcu/pcu_io.c
index 01462ac..91286ec 100644
--- a/pcu/pcu_io.c
+++ b/pcu/pcu_io.c
@@ -201,7 +201,8 @@ void pcu_fclose(pcu_file* pf)
 {
   if (pf->compress)
     close_compressed(pf);
-  fclose(pf->f);
+  if (fclose(pf->f) && pf->write)
+    reel_fail("pcu_fclose: the end of the file could not be written");
   free(pf);
 }
 
-- 
2.43.0


From d8651e288e07699d3e8048407478459c35fda7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 41/42] fix: a missing or short part file put the vertices on
 part 0 silently

---
 interfaces/binGraph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/binGraph.cpp b/interfaces/binGraph.cpp
index 8bfb217..46340ea 100644
--- a/interfaces/binGraph.cpp
+++ b/interfaces/binGraph.cpp
@@ -187,7 +187,10 @@ int binGraph::read_ranks(char* filename, int32_t* ranks) {
 
   for (int64_t i = 0; i < num_global_verts; ++i)
   {
-    getline(infile, line);
+    if (!getline(infile, line)) {
+      fprintf(stderr, "File %s does not have a part for every vertex\n", filename);
+      throw 1;
+    }
     ranks[i] = (int32_t)atoi(line.c_str());
   }
   infile.close();
-- 
2.43.0


From e316bbb54290ba45954e809ec291f70a30e23c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:49 +0000
Subject: [PATCH 42/42] fix: describe a balancing of any input in the log
 without overrunning the message

---
 partition/Diffusive/src/engpar_balancer.cpp | 36 ++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/partition/Diffusive/src/engpar_balancer.cpp b/partition/Diffusive/src/engpar_balancer.cpp
index 4f1a01a..5edbf2c 100644
--- a/partition/Diffusive/src/engpar_balancer.cpp
+++ b/partition/Diffusive/src/engpar_balancer.cpp
@@ -5,6 +5,7 @@
 #include <engpar_support.h>
 #include <agiMigration.h>
 #include <cmath>
+#include <sstream>
 namespace {
   void printMigrationStats(agi::MigrationTimers* migrTime) {
     double maxSetup = migrTime->processMax("setup");
@@ -196,29 +197,28 @@ namespace engpar {
   void Balancer::balance() {
     DiffusiveInput* inp = dynamic_cast<DiffusiveInput*>(input);
     if (EnGPar_Is_Log_Open()) {
-      char message[1000];
-      sprintf(message,"balance() : \n");
+      std::stringstream ss;
+      ss<<std::fixed<<"balance() : \n";
       //Log the input parameters
-      sprintf(message,"%s priorities :",message);
+      ss<<" priorities :";
       for (unsigned int i=0;i<inp->priorities.size();i++)
-        sprintf(message,"%s %d",message,inp->priorities[i]);
-      sprintf(message,"%s\n",message);
+        ss<<" "<<inp->priorities[i];
+      ss<<"\n";
       if (inp->tolerances.size()>0) {
-        sprintf(message,"%s tolerances :",message);
+        ss<<" tolerances :";
         for (unsigned int i=0;i<inp->tolerances.size();i++)
-          sprintf(message,"%s %f",message,inp->tolerances[i]);
-        sprintf(message,"%s\n",message);
+          ss<<" "<<inp->tolerances[i];
+        ss<<"\n";
       }
-      sprintf(message,"%s maxIterations : %d\n",message,inp->maxIterations);
-      sprintf(message,"%s maxIterationsPerType : %d\n",
-              message,inp->maxIterationsPerType);
-      sprintf(message,"%s step_factor : %f\n",message,inp->step_factor);
-      sprintf(message,"%s sides_edge_type : %d\n",message,inp->sides_edge_type);
-      sprintf(message,"%s selection_edge_type : %d\n",
-              message,inp->selection_edge_type);
-      sprintf(message,"%s countGhosts : %d\n",message,inp->countGhosts);
-      
-      EnGPar_Log_Function(message);
+      ss<<" maxIterations : "<<inp->maxIterations<<"\n";
+      ss<<" maxIterationsPerType : "<<inp->maxIterationsPerType<<"\n";
+      ss<<" step_factor : "<<inp->step_factor<<"\n";
+      ss<<" sides_edge_type : "<<inp->sides_edge_type<<"\n";
+      ss<<" selection_edge_type : "<<inp->selection_edge_type<<"\n";
+      ss<<" countGhosts : "<<inp->countGhosts<<"\n";
+
+      std::string message = ss.str();
+      EnGPar_Log_Function(&message[0]);
     }
     if (1 == PCU_Comm_Peers()) {
       EnGPar_Warning_Message("ran in serial, nothing to do exiting...\n");
-- 
2.43.0

