From 316eef60f8f41857fcf29443ee210c01bfb8554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:01 +0000
Subject: [PATCH 01/70] fix: bipartite projection read past its edge arrays and
 summed into an uninitialised strength

---
 src/fillpartitions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fillpartitions.c b/src/fillpartitions.c
index 34700a4..e7a715e 100644
--- a/src/fillpartitions.c
+++ b/src/fillpartitions.c
@@ -155,7 +155,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
 
   double fac1 = 0;
   double fac2 = 0;
-  double strength;
+  double strength = 0;
 
   // Count the degree of each node and assign a first data structure for the
   // projected network.
@@ -164,7 +164,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
     degree++; // degree of current team
     strength += ed[i].strength; // Strength of current team
     part->nodes[ed[i].node1]->strength += ed[i].strength; // degree of current actor
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       Emax += (degree)*(degree-1) / 2;
       fac2 += strength;
       fac1 += strength * (strength-strength/degree);
@@ -182,7 +182,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   unsigned int j = 0, x, y, x0 = 0;
   for (i = 0; i <= count-1; i++) {
     degree++;
-    if (ed[i].node2 != ed[i+1].node2 || i == count-1) {
+    if (i == count-1 || ed[i].node2 != ed[i+1].node2) {
       for (x = x0; x < i+1; x++){
         for (y = x0; y < x; y++) {
           if (ed[x].node1 < ed[y].node1){
@@ -206,7 +206,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   E = j;
   unsigned int *degree_proj = calloc(N,sizeof(unsigned int));
   for (i = 0; i < j; i++) {
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0 || i == j-1) {
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0) {
       degree_proj[projected[i].node1]++;
       degree_proj[projected[i].node2]++;
     }
@@ -231,7 +231,7 @@ ProjectBipartEdgeList(unsigned int *nd_in, unsigned int *nd_out, double *weights
   for (i = 0; i < j; i++) {
     adj->strength[idx[projected[i].node1]] += projected[i].strength;
     adj->strength[idx[projected[i].node2]] += projected[i].strength;
-    if (EdgeCompare(&projected[i],&projected[i+1]) != 0){
+    if (i == j-1 || EdgeCompare(&projected[i],&projected[i+1]) != 0){
       //printf("%d %d %f:\n",projected[i].node1,projected[i].node2,projected[i].strength);
       adj->neighbors[idx[projected[i].node1]] = projected[i].node2;
       adj->neighbors[idx[projected[i].node2]] = projected[i].node1;
-- 
2.43.0


From a95c6af50a3c5b8349e4833d3636ca417177b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:36 +0000
Subject: [PATCH 02/70] fix: annealing could return no partition, or one worse
 than the best it reached

---
 src/sannealing.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/sannealing.c b/src/sannealing.c
index 8ed7d9d..f982a6d 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -47,7 +47,7 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   Partition *part = *ppart;
   Partition *best_part = NULL;
   unsigned int individual_movements, collective_movements;
-  unsigned int target, oldg, newg, i, g1, g2, j, empty, ncomponent, err;
+  unsigned int target, oldg, newg, i, g1, g2, j, empty, ncomponent, err, improved;
   double T = Ti;
   unsigned int nochange_count=0;
 
@@ -187,6 +187,17 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 	  } // End of unless there is no empty group (=End of split).
 	} //End of collective movements
 
+	// Keep the best partition reached so far, however small the
+	// improvement: it is the one we return.
+	improved = (best_part == NULL || E > best_E);
+	if (improved) {
+	  info ("# Saving a new best partition (%e)\n",E);
+	  if (best_part!=NULL)
+		FreePartition(best_part);
+	  best_part = CopyPartitionStruct(part);
+	  best_E = E;
+	}
+
 	//// BREAK THE LOOP IF NO CHANGES... ////
 	if ( (fabs(E - previousE) / fabs(previousE) < EPSILON_MOD)
 		 || (fabs(previousE) < EPSILON_MOD) )
@@ -207,16 +218,8 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 		  part = CopyPartitionStruct(best_part);
 		}
 	  }
-	// Compare the current partition to the best partition so far and
-	// update it if needed.
-	else if ( E > best_E) {
-	  info ("# Saving a new best partition (%e)\n",E);
-	  if (best_part!=NULL)
-		FreePartition(best_part);
-	  best_part = CopyPartitionStruct(part);
-	  best_E = E;
+	else if (improved)
 	  nochange_count = 0;
-	}
    	// update the previous energy level.
 	previousE = E;
 
@@ -224,7 +227,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
 
   info ("# End of SA, best partition so far: %e\n",best_E);
 
-  FreePartition(part);
+  if (best_part == NULL) // There was no temperature step at all.
+	best_part = part;
+  else
+	FreePartition(part);
   *ppart = best_part;
   return(0);
 }
-- 
2.43.0


From 5763e14c053dd0c5a9291e0e7a36a25abf87f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:36 +0000
Subject: [PATCH 03/70] fix: splitting a module by components joined them
 through nodes outside the module

---
 src/movements.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/movements.c b/src/movements.c
index d04a07e..8e26bc9 100644
--- a/src/movements.c
+++ b/src/movements.c
@@ -267,11 +267,11 @@ SplitModuleByComponent(unsigned int targetModuleId,
 			AddToStack(j,to_move);
 		}
 
-		//loop through neighbors and add them to the queue.
+		//loop through neighbors and add those of the same module to the queue.
 		for (i=adj->idx[j];i<adj->idx[j+1];i++){
 		  k = adj->neighbors[i]; // The index of the neighbor.
 
-		  if(!visited[k]){
+		  if(!visited[k] && part->nodes[k]->module == targetModuleId){
 			visited[k] = 1;
 			// Add the node to the queue of nodes to visit.
 			AddToStack(k,to_visit);
-- 
2.43.0


From 8102d719da6288e58198ff32f3cf0c66061ac9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 04/70] fix: annealing a network with a single node or module
 never ended

---
 src/sannealing.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sannealing.c b/src/sannealing.c
index f982a6d..d4f5d8a 100644
--- a/src/sannealing.c
+++ b/src/sannealing.c
@@ -52,6 +52,10 @@ GeneralSA(Partition **ppart, AdjaArray *adj,
   unsigned int nochange_count=0;
 
   double dE=0.0, E=0.0, previousE=0.0, best_E=-1.0/0.0;  //initial best is -infinity.
+
+  // There is nothing to optimise with a single node or a single module.
+  if (part->N < 2 || part->M < 2) return 0;
+
   info ("#Simulated annealing:\n");
   explain ("#Ti: %f Tf: %f c: %f fac: %f\n",Ti,Tf,Ts,fac);
   explain ("#nochang_limit: %d, proba_components: %f \n",nochange_limit, proba_components);
-- 
2.43.0


From 7ba8572c2013cc26e87aaef4517b0915ff6297e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 05/70] fix: partition files, including the ones netcarto
 writes, could not be read back

---
 netcarto/main_netcarto.c |  5 ++++
 src/io.c                 | 51 ++++++++++++++++++++++++----------------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index ddc2a7e..04c5f25 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -209,8 +209,13 @@ main(int argc, char **argv)
 	int i;
 	i = AssignNodesToModulesFromFile(inF,part,labels);
 	fclose(inF);
+	if (i<0){
+	  printf ("Error: cannot use the partition file %s.\n",file_name_part);
+	  return(1);
+	}
 	if (i){
 	  printf ("Error: %d nodes are missing from the partition file.\n",i);
+	  return(1);
 	}
 	printf ("# %d modules read \n",part->M);
   }
diff --git a/src/io.c b/src/io.c
index 8e0c0c5..08a60c5 100644
--- a/src/io.c
+++ b/src/io.c
@@ -248,49 +248,60 @@ int
 AssignNodesToModulesFromFile(FILE *inF,
 							 Partition *part,
 							 char **labels){
-  char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int j = 0, nfields = 0, nnode = part->N;
-  hcreate(part->N);
+  char *line = NULL, *label;
+  size_t bufsiz = 0;
+  unsigned int j = 0;
+  int nnode = part->N, invalid = 0, found;
   int i;
+  char *assigned = calloc(part->N+1,sizeof(char));
   ENTRY e, *ep;
 
+  hcreate(part->N);
   for (i=0;i<nnode;i++){
 	e.key = labels[i];
-	e.data = (void *) i;
+	e.data = (void *) (size_t) i;
 	ep = hsearch(e, ENTER);
   }
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
+  // One module per line, its nodes separated by tabs.
+  while (!invalid && getline(&line, &bufsiz, inF) != -1){
+	// Skip the header lines (node labels do not contain spaces).
+	if (line[0]=='#' && line[1]==' ') continue;
+
+	found = 0;
+	for (label=strtok(line,"\t\r\n"); label!=NULL; label=strtok(NULL,"\t\r\n")){
 	  e.key = label;
 	  ep = hsearch(e, FIND);
-	  i = (int) ep->data;
+	  if (ep == NULL || assigned[(size_t) ep->data] || j >= part->M){
+		printf ("Unexpected node %s in the partition file.\n",label);
+		invalid = 1;
+		break;
+	  }
+	  i = (int) (size_t) ep->data;
+	  assigned[i] = 1;
+	  found = 1;
 	  nnode--;
 
+	  part->nodes[i]->module = j;
+	  part->modules[j]->strength += part->nodes[i]->strength;
 	  if (!part->modules[j]->size){
 		part->nempty --;
-		part->nodes[i]->module = j;
-		part->modules[j]->size = 1;
-		part->modules[j]->strength = part->nodes[i]->strength;
 		part->modules[j]->first = part->nodes[i];
-		part->modules[j]->last = part->nodes[i];
 	  }
 	  else{
-		part->nodes[i]->module = j;
-		part->modules[j]->size++;
-		part->modules[j]->strength += part->nodes[i]->strength;
 		part->modules[j]->last->next = part->nodes[i];
 		part->nodes[i]->prev = part->modules[j]->last;
-		part->modules[j]->last = part->nodes[i];
 	  }
-	  if(sep[0]=='\n')
-		j++;
+	  part->modules[j]->size++;
+	  part->modules[j]->last = part->nodes[i];
 	}
+	j += found;
   }
+  if (ferror(inF)) invalid = 1;
+  free(assigned);
+  free(line);
 
   CompressPartition(part);
   hdestroy();
-  return nnode;
+  return invalid ? -1 : nnode;
 }
-- 
2.43.0


From 9e8a2f41250f1dfac4697ed88911482593b64266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 06/70] fix: netcarto reported success when its input could not
 be read or its output not written

---
 netcarto/main_netcarto.c | 15 +++++++++++++--
 src/io.c                 |  6 ++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index 04c5f25..c156f2d 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -169,6 +169,10 @@ main(int argc, char **argv)
 	err = EdgeListFileInput(inF, weighted, bipartite+invert,
 								 &nodes1, &nodes2, &weights, &labels,
 								 &E, &N);
+	if (err || E == 0) {
+		printf("ERROR: Cannot read the input network. \n");
+		return(1);
+	}
 	if (Ngroups==0) Ngroups=N;
 
 	if (!bipartite){
@@ -256,8 +260,15 @@ main(int argc, char **argv)
   else
 	ClusteringOutput(outF, part, labels);
 
-  // Close file if we need to.
-  if (to_file == 1)	fclose(outF);
+  // Make sure that the output was written, and close file if we need to.
+  err = ferror(outF);
+  if (to_file == 1)	{
+	if (fclose(outF)) err = 1;
+  } else if (fflush(outF)) err = 1;
+  if (err) {
+	fprintf(stderr, "ERROR: Cannot write the output. \n");
+	return(1);
+  }
 
   //Free the memory
   if (roles){
diff --git a/src/io.c b/src/io.c
index 08a60c5..7255f5d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -178,6 +178,12 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
     }
   }
 
+  // The input must have been read to its end.
+  if (ferror(inFile)){
+    printf ("Failed to read input: read error after %d lines. \n", E);
+    return 1;
+  }
+
   // Free unused memory
   nodes_in = realloc(nodes_in, (E+1)*sizeof(unsigned int));
   nodes_out = realloc(nodes_out, (E+1)*sizeof(unsigned int));
-- 
2.43.0


From 33f12948f9b4ed17e7e3e290c243cd5140aad292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:27 +0000
Subject: [PATCH 07/70] fix: netcarto overflowed its label buffers on labels of
 100 characters or more

---
 src/io.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/io.c b/src/io.c
index 7255f5d..61a1117 100644
--- a/src/io.c
+++ b/src/io.c
@@ -42,6 +42,24 @@ free_node_tree(void *root)
 }
 
 
+/**
+Tell whether one of the two labels of a line is too long to be stored.
+**/
+static int
+label_too_long(const char *line)
+{
+  const char *blanks = " \t\r\n\v\f";
+  size_t length;
+  int i;
+  for (i=0; i<2; i++){
+	line += strspn(line, blanks);
+	length = strcspn(line, blanks);
+	if (length >= MAX_LABEL_LENGTH) return 1;
+	line += length;
+  }
+  return 0;
+}
+
 /**
 Read an edge list from a file and convert it to arrays.
 @param nodes_in_p,nodes_out_p,weights_p Edge list, nodes id and weight of each edge.
@@ -96,6 +114,11 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
     struct node *temp = NULL;
 
 
+    if (label_too_long(line)){
+      printf ("Failed to read input: label too long in line %s. \n", line);
+      return 1;
+    }
+
     /* Read the labels (and edge weight, if necessary) */
     if (weighted == 0) {
       noReadItems = sscanf(line, "%s %s", node1->label, node2->label);
-- 
2.43.0


From 2980794d0d5009642d808367e4bd85a52f599fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:30 +0000
Subject: [PATCH 08/70] fix: compressing a partition without any node ran off
 its modules

---
 src/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 5fd82e1..723e115 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -323,7 +323,7 @@ CompressPartition(Partition *part){
   // that were not freed (!=NULL) to one of the empty ids in the
   // begining of the list.
   j = 0;
-  for (i=(part->M)-1;i>=M;i--){
+  for (i=part->M;i-->M;){
 	if (part->modules[i]!=NULL) {
 	  for(node=part->modules[i]->first; node!=NULL; node = node->next){
 		node->module = empty_id[j];
-- 
2.43.0


From a8820671d6e127661cd513c762a1567665dd849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:30 +0000
Subject: [PATCH 09/70] fix: rounding errors gave nodes of regular modules a
 connectivity of 1 or -1 instead of 0

---
 src/partition.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partition.c b/src/partition.c
index 723e115..c6322b0 100644
--- a/src/partition.c
+++ b/src/partition.c
@@ -203,7 +203,8 @@ PartitionRolesMetrics(Partition *part, AdjaArray *adj, double *connectivity, dou
   // Compute the z-score.
   for (i=0; i<N; i++){
 	mod = part->nodes[i]->module;
-	if (std[mod])
+	// (a deviation within the rounding errors of the mean is null)
+	if (std[mod] > 1e-9 * mean[mod])
 	  connectivity[i] = (strengthToModule[i+N*mod] - mean[mod]) / std[mod];
 	else
 	  connectivity[i] = 0;
-- 
2.43.0


From 5f5cbb1a627838a85da9028c975a6aeaa7522126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 10/70] fix: Gibbs steps used uninitialised values when all
 nodes were in one group

---
 src/missing.c        | 13 +++++++++++++
 src/multiblock.c     | 26 ++++++++++++++++++++++++++
 src/only_deg.c       | 13 +++++++++++++
 src/sparse_missing.c | 13 +++++++++++++
 4 files changed, 65 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 38cfa02..2081f32 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2053,6 +2053,19 @@ GibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Properties of the old group and of the node: the move to an empty
+       group needs them even if there is no other group to move to */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/multiblock.c b/src/multiblock.c
index ee89278..9786b1b 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1356,6 +1356,19 @@ GibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Properties of the old group and of the node: the move to an empty
+       group needs them even if there is no other group to move to */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
@@ -1992,6 +2005,19 @@ ORGibbsLinkScoreStepMB(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Properties of the old group and of the node: the move to an empty
+       group needs them even if there is no other group to move to */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/only_deg.c b/src/only_deg.c
index d271ea3..ae5a472 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -719,6 +719,19 @@ GibbsLinkScoreStepMB_OD(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Properties of the old group and of the node: the move to an empty
+       group needs them even if there is no other group to move to */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index bde304a..d272a3b 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -123,6 +123,19 @@ SparseGibbsLinkScoreStep(double *H,
     oldg = glist[oldgnum];
     norm = 0.0;
 
+    /* Properties of the old group and of the node: the move to an empty
+       group needs them even if there is no other group to move to */
+    noldg = oldg->size;
+    n2oldg = NLinksToGroup(node, oldg);
+    oldg2oldg = oldg->inlinks;
+    effectng = 0;
+    for (slgn=0; slgn<slgsize; slgn++) {
+      g = glist[slg[slgn]];
+      if (g->size > 0)
+	effectng++;
+      n2gList[g->label] = NLinksToGroup(node, g);
+    }
+
     /* Loop over destination groups */
     for (newgn=0; newgn<slgsize; newgn++) {
       newgnum = slg[newgn];
-- 
2.43.0


From a4cbcfe55ea38aa930f49c1e73279b455371d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:21 +0000
Subject: [PATCH 11/70] fix: Gibbs steps read before the list of groups when
 the random draw was zero

---
 src/missing.c        | 4 ++--
 src/multiblock.c     | 8 ++++----
 src/only_deg.c       | 4 ++--
 src/recommend.c      | 3 ++-
 src/sparse_missing.c | 4 ++--
 5 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 2081f32..d7894fd 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2291,9 +2291,9 @@ GibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/multiblock.c b/src/multiblock.c
index 9786b1b..e16f14b 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1609,9 +1609,9 @@ GibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
@@ -2258,9 +2258,9 @@ ORGibbsLinkScoreStepMB(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/only_deg.c b/src/only_deg.c
index ae5a472..d425847 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -972,9 +972,9 @@ GibbsLinkScoreStepMB_OD(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
diff --git a/src/recommend.c b/src/recommend.c
index cc5e06a..0168730 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -2119,8 +2119,9 @@ GibbsStepKState(int K,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice)
+      do
 	cum += exp(-dH[slg[target++]]);
+      while (cum < dice && target < *slgsize);
       newgnum = slg[target - 1];
       newg = (*glistnode)[newgnum];
     }
diff --git a/src/sparse_missing.c b/src/sparse_missing.c
index d272a3b..2293468 100644
--- a/src/sparse_missing.c
+++ b/src/sparse_missing.c
@@ -315,9 +315,9 @@ SparseGibbsLinkScoreStep(double *H,
       /* Select group in shortlist */
       target = 0;
       cum = 0.0;
-      while (cum < dice) {
+      do {
 	cum += exp(-dH[slg[target++]]);
-      }
+      } while (cum < dice && target < slgsize);
       newgnum = slg[target - 1];
       newg = glist[newgnum];
     }
-- 
2.43.0


From cbc37940dea2bd2869e5ec87905124dc2a70fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 12/70] Simulation hook: smaller log-binomial table in the
 Gibbs samplers with RGRAPH_SIM

---
 src/missing.c    | 2 +-
 src/missing.h    | 8 ++++++++
 src/multiblock.c | 4 ++--
 src/only_deg.c   | 2 +-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index d7894fd..cb7fa5b 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -2434,7 +2434,7 @@ GibbsLinkScore(struct node_gra *net,
   int i, j;
   int **G2G=NULL;
   int *n2gList=NULL;
-  int LogChooseListSize = 10000;
+  int LogChooseListSize = GIBBS_LOGCHOOSE_SIZE;
   double **LogChooseList=InitializeFastLogChoose(LogChooseListSize);
   struct node_lis *p1=NULL, *p2=NULL;
   double contrib;
diff --git a/src/missing.h b/src/missing.h
index feb40cc..4e0884c 100644
--- a/src/missing.h
+++ b/src/missing.h
@@ -18,6 +18,14 @@
 
 #define EPSILON 1.e-6
 
+/* Size of the table of log-binomials of the Gibbs samplers (simulation
+   builds use a smaller one; larger arguments are computed directly) */
+#ifdef RGRAPH_SIM
+#define GIBBS_LOGCHOOSE_SIZE 300
+#else
+#define GIBBS_LOGCHOOSE_SIZE 10000
+#endif
+
 /*
   ---------------------------------------------------------------------
   Missing links
diff --git a/src/multiblock.c b/src/multiblock.c
index e16f14b..814f040 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -1754,7 +1754,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   int i, j;
   int **G2G=NULL;
   int *n2gList=NULL;
-  int LogChooseListSize = 10000;
+  int LogChooseListSize = GIBBS_LOGCHOOSE_SIZE;
   double **LogChooseList=InitializeFastLogChoose(LogChooseListSize);
   struct node_lis *p1=NULL, *p2=NULL;
   double contrib_AND;
@@ -2403,7 +2403,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   int i, j;
   int **G2G=NULL;
   int *n2gList=NULL;
-  int LogChooseListSize = 10000;
+  int LogChooseListSize = GIBBS_LOGCHOOSE_SIZE;
   double **LogChooseList=InitializeFastLogChoose(LogChooseListSize);
   struct node_lis *p1=NULL, *p2=NULL;
   double contrib_OR;
diff --git a/src/only_deg.c b/src/only_deg.c
index d425847..c8f45c2 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -1117,7 +1117,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   int i, j;
   int **G2G=NULL;
   int *n2gList=NULL;
-  int LogChooseListSize = 10000;
+  int LogChooseListSize = GIBBS_LOGCHOOSE_SIZE;
   double **LogChooseList=InitializeFastLogChoose(LogChooseListSize);
   struct node_lis *p1=NULL, *p2=NULL;
   double contrib;
-- 
2.43.0


From 78ca42d03dafdeb36d4497b588335b92821cc3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:54 +0000
Subject: [PATCH 13/70] fix: link scores depended on uninitialised
 node-to-group link counts

---
 src/missing.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index cb7fa5b..37db576 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -571,6 +571,7 @@ LinkScore(struct node_gra *net,
   G2G = allocate_i_mat(nnod, nnod);
   n2gList = allocate_i_vec(nnod);
   for (i=0; i<nnod; i++) {
+    n2gList[i] = 0;
     G2G[i][i] = glist[i]->inlinks;
     for (j=i+1; j<nnod; j++) {
       G2G[i][j] = G2G[j][i] = NG2GLinks(glist[i], glist[j]);
@@ -903,6 +904,7 @@ NetworkScore(struct node_gra *netTar,
   G2G = allocate_i_mat(nnod, nnod);
   n2gList = allocate_i_vec(nnod);
   for (i=0; i<nnod; i++) {
+    n2gList[i] = 0;
     G2G[i][i] = glist[i]->inlinks;
     for (j=i+1; j<nnod; j++) {
       G2G[i][j] = G2G[j][i] = NG2GLinks(glist[i], glist[j]);
@@ -1183,6 +1185,7 @@ PartitionSampling(struct node_gra *net,
   G2G = allocate_i_mat(nnod, nnod);
   n2gList = allocate_i_vec(nnod);
   for (i=0; i<nnod; i++) {
+    n2gList[i] = 0;
     G2G[i][i] = glist[i]->inlinks;
     for (j=i+1; j<nnod; j++) {
       G2G[i][j] = G2G[j][i] = NG2GLinks(glist[i], glist[j]);
-- 
2.43.0


From b871331ba450a086575c3df1d233147d71fddc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:21 +0000
Subject: [PATCH 14/70] fix: table of harmonic numbers was two entries short

---
 src/multiblock.c | 8 ++++----
 src/only_deg.c   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiblock.c b/src/multiblock.c
index 814f040..3c1ebe8 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -481,7 +481,7 @@ LinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_AND = allocate_d_mat(nnod, nnod);
@@ -1111,7 +1111,7 @@ ORLinkScoreMB(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA_OR = allocate_d_mat(nnod, nnod);
@@ -1764,7 +1764,7 @@ GibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
@@ -2413,7 +2413,7 @@ ORGibbsLinkScoreMB(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
diff --git a/src/only_deg.c b/src/only_deg.c
index c8f45c2..2092e2d 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -480,7 +480,7 @@ LinkScoreMB_OD(struct node_gra *net,
     PRELIMINARIES
   */
   /* Initialize the table of harmonic numbers */
-  HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /* Initialize the predicted adjacency matrix */
   predA = allocate_d_mat(nnod, nnod);
@@ -1127,7 +1127,7 @@ GibbsLinkScoreMB_OD(struct node_gra *net,
   double mutualInfo;
   int LogFactListSize = 10000;
   double *LogFactList = InitializeFastLogFact(LogFactListSize);
-  double *HarmonicList = InitializeHarmonicList(1 + nnod * (nnod - 1) / 2);
+  double *HarmonicList = InitializeHarmonicList(3 + nnod * (nnod - 1) / 2);
 
   /*
     PRELIMINARIES
-- 
2.43.0


From 8187028b2facaaef4d01c179e2003895d8f53ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:50 +0000
Subject: [PATCH 15/70] fix: decorrelation time of small networks could not be
 estimated, or came out as zero

---
 src/missing.c    | 14 ++++++++++----
 src/multiblock.c | 16 ++++++++++++----
 src/only_deg.c   |  8 ++++++--
 src/recommend.c  | 12 ++++++++----
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 37db576..5c6250f 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -346,11 +346,13 @@ GetDecorrelationStep(double *H,
   int step, x1, x2;
   double y1, y2;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay, meanDecay, sigmaDecay, result;
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -384,6 +386,8 @@ GetDecorrelationStep(double *H,
 	      rep + 1, decay[rep]);
       break;
     }
+    if (decay[rep] < 0 && ++nfail > maxfail)
+      decay[rep] = x2;  /* the decay cannot be estimated */
     if (decay[rep] < 0) {
       rep--;
       switch (verbose_sw) {
@@ -419,7 +423,7 @@ GetDecorrelationStep(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  return (result / norm < 1.) ? 1 : result / norm;
 }
 
 /*
@@ -1533,7 +1537,7 @@ LSGetDecorrelationStepKState(int K,
   int step, x1, x2;
   double y1, y2;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay, meanDecay, sigmaDecay, result;
   int norm=0;
 
@@ -1584,6 +1588,8 @@ LSGetDecorrelationStepKState(int K,
 	      rep + 1, decay[rep]);
       break;
     }
+    if (decay[rep] < 0. && ++nfail > maxfail)
+      decay[rep] = x2;  /* the decay cannot be estimated */
     if (decay[rep] < 0.) {
       rep--;
       switch (verbose_sw) {
@@ -1629,7 +1635,7 @@ LSGetDecorrelationStepKState(int K,
   /* Clean up */
   free_d_vec(decay);
 
-  return (int)(result / norm + 0.5);
+  return (result / norm < 1.) ? 1 : (int)(result / norm + 0.5);
 }
 
 
diff --git a/src/multiblock.c b/src/multiblock.c
index 3c1ebe8..a9c6683 100644
--- a/src/multiblock.c
+++ b/src/multiblock.c
@@ -279,11 +279,13 @@ GetDecorrelationStepMB(double *H,
   int step, x1, x2;
   double y1, y2;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay, meanDecay, sigmaDecay, result;
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -318,6 +320,8 @@ GetDecorrelationStepMB(double *H,
 	      rep + 1, decay[rep]);
       break;
     }
+    if (decay[rep] < 0 && ++nfail > maxfail)
+      decay[rep] = x2;  /* the decay cannot be estimated */
     if (decay[rep] < 0) {
       rep--;
       switch (verbose_sw) {
@@ -353,7 +357,7 @@ GetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  return (result / norm < 1.) ? 1 : result / norm;
 }
 
 /*
@@ -909,11 +913,13 @@ ORGetDecorrelationStepMB(double *H,
   int step, x1, x2;
   double y1, y2;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay, meanDecay, sigmaDecay, result;
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -948,6 +954,8 @@ ORGetDecorrelationStepMB(double *H,
 	      rep + 1, decay[rep]);
       break;
     }
+    if (decay[rep] < 0 && ++nfail > maxfail)
+      decay[rep] = x2;  /* the decay cannot be estimated */
     if (decay[rep] < 0) {
       rep--;
       switch (verbose_sw) {
@@ -983,7 +991,7 @@ ORGetDecorrelationStepMB(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  return (result / norm < 1.) ? 1 : result / norm;
 }
 
 /*
diff --git a/src/only_deg.c b/src/only_deg.c
index 2092e2d..cca2e42 100644
--- a/src/only_deg.c
+++ b/src/only_deg.c
@@ -277,11 +277,13 @@ GetDecorrelationStepMB_OD(double *H,
   int step, x1, x2;
   double y1, y2;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay, meanDecay, sigmaDecay, result;
   int norm=0;
 
   x2 = nnod / 5;
+  if (x2 < 10)
+    x2 = 10;
   x1 = x2 / 4;
 
   /* Get the nrep initial estimates */
@@ -316,6 +318,8 @@ GetDecorrelationStepMB_OD(double *H,
 	      rep + 1, decay[rep]);
       break;
     }
+    if (decay[rep] < 0 && ++nfail > maxfail)
+      decay[rep] = x2;  /* the decay cannot be estimated */
     if (decay[rep] < 0) {
       rep--;
       switch (verbose_sw) {
@@ -351,7 +355,7 @@ GetDecorrelationStepMB_OD(double *H,
   /* Clean up */
   free_d_vec(decay);
 
-  return result / norm;
+  return (result / norm < 1.) ? 1 : result / norm;
 }
 
 /*
diff --git a/src/recommend.c b/src/recommend.c
index 0168730..6ed39be 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -502,7 +502,7 @@ GetDecorrelationStep2State(double *H,
   int step, x1, x2;
   double y11, y12, y21, y22;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay1, meanDecay1, *decay2, meanDecay2;
   double **decay, meanDecay, sigmaDecay, result;
   int norm=0;
@@ -566,6 +566,8 @@ GetDecorrelationStep2State(double *H,
 	      rep + 1, decay1[rep], decay2[rep]);
       break;
     }
+    if ((decay1[rep] < 0. || decay2[rep] < 0.) && ++nfail > maxfail)
+      decay1[rep] = decay2[rep] = x2;  /* the decay cannot be estimated */
     if (decay1[rep] < 0. || decay2[rep] < 0.) {
       rep--;
       switch (verbose_sw) {
@@ -637,7 +639,7 @@ GetDecorrelationStep2State(double *H,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  return (result / norm < 1.) ? 1 : (int)(result / norm + 0.5);
 }
 
 
@@ -1341,7 +1343,7 @@ GetDecorrelationStepKState(int K,
   int step, x1, x2;
   double y11, y12, y21, y22;
   double mutualInfo;
-  int rep, nrep=10;
+  int rep, nrep=10, nfail=0, maxfail=100;
   double *decay1, meanDecay1, *decay2, meanDecay2;
   double **decay, meanDecay, sigmaDecay, result;
   int norm=0;
@@ -1404,6 +1406,8 @@ GetDecorrelationStepKState(int K,
 	      rep + 1, decay1[rep], decay2[rep]);
       break;
     }
+    if ((decay1[rep] < 0. || decay2[rep] < 0.) && ++nfail > maxfail)
+      decay1[rep] = decay2[rep] = x2;  /* the decay cannot be estimated */
     if (decay1[rep] < 0. || decay2[rep] < 0.) {
       rep--;
       switch (verbose_sw) {
@@ -1475,7 +1479,7 @@ GetDecorrelationStepKState(int K,
   free_d_vec(decay1);
   free_d_vec(decay2);
 
-  return (int)(result / norm + 0.5);
+  return (result / norm < 1.) ? 1 : (int)(result / norm + 0.5);
 }
 
 
-- 
2.43.0


From 3c27b2e035dced9ee71c5d2215ce188901bee999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:05 +0000
Subject: [PATCH 16/70] fix: inferences over ratings never ended when the
 energy was constant or each side had one node

---
 src/missing.c   |  3 ++-
 src/recommend.c | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/missing.c b/src/missing.c
index 5c6250f..74bc31e 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1690,7 +1690,8 @@ LSThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
diff --git a/src/recommend.c b/src/recommend.c
index 6ed39be..ac57d65 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -300,6 +300,10 @@ MCStep2State(int factor,
   int j; 
   int move_in;
 
+  /* With a single node in each set there is nowhere to move */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
@@ -700,7 +704,8 @@ ThermalizeMC2State(int decorStep,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -1145,6 +1150,10 @@ MCStepKState(int K,
   int move_in;
   int k;
 
+  /* With a single node in each set there is nowhere to move */
+  if (nnod1 < 2 && nnod2 < 2)
+    return;
+
   /* Ratio of moves in each of the sets */
   set_ratio = (double)(nnod1*nnod1-1) / (double)(nnod1*nnod1+nnod2*nnod2-2);
 
@@ -1534,7 +1543,8 @@ ThermalizeMCKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
@@ -2217,7 +2227,8 @@ GibbsThermalizeKState(int K,
     /* Check for equilibration */
     HMean1 = mean(Hvalues, nrep);
     HStd1 = stddev(Hvalues, nrep);
-    if (HMean0 - HStd0 / sqrt(nrep) < HMean1 + HStd1 / sqrt(nrep)) {
+    if ((HMean0 - HStd0 / sqrt(nrep)) - (HMean1 + HStd1 / sqrt(nrep))
+	< EPSILON) {
       equilibrated++;
       switch (verbose_sw) {
       case 'q':
-- 
2.43.0


From 0a112156a5b18887948c9fb2c8a479e5a87186dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 17/70] fix: looking a node up by label compared addresses, so
 it was never found

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 7f63069..d771337 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -792,7 +792,7 @@ IsThereNode(char *label, struct node_gra *p)
 {
   
   while ((p = p->next) != NULL)
-    if (p->label == label)
+    if (strcmp(p->label, label) == 0)
       return 1;
 
   return 0;
-- 
2.43.0


From a12195b960d4e8c9e56dd71ea96f103a0997e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 18/70] fix: network of a group and its neighbours had its
 links wired to the wrong nodes

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 45cd990..4fc2f1f 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1134,7 +1134,7 @@ BuildNetFromGroupNeig(struct group *group)
   }
 
   CleanAdjacencies(net);
-  RewireAdjacencyByNum(net);
+  RewireAdjacencyByLabel(net);
 
   return net;
 }
-- 
2.43.0


From c7d6a71ab4d3d7fb424cbb33f1175b07ca36d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 19/70] fix: removing the links of a group or between groups
 read freed links

---
 src/modules.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 4fc2f1f..96102ed 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -677,8 +677,8 @@ RemoveWithinGroupLinks(struct group *g, int symmetric_sw)
   nod = g->nodeList;
   while ((nod = nod->next) != NULL) {
     nei = nod->ref->neig;
-    while ((nei = nei->next) != NULL)
-      RemoveLink(nod->ref, nei->ref, symmetric_sw);
+    while (nei->next != NULL)
+      RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
   }
 
   return;
@@ -700,9 +700,11 @@ RemoveBetweenGroupLinks(struct group *part, int symmetric_sw)
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
       nei = nod->ref->neig;
-      while ((nei = nei->next) != NULL) {
-	if (nod->ref->inGroup != nei->ref->inGroup)
-	  RemoveLink(nod->ref,nei->ref, symmetric_sw);
+      while (nei->next != NULL) {
+	if (nod->ref->inGroup != nei->next->ref->inGroup)
+	  RemoveLink(nod->ref, nei->next->ref, symmetric_sw);
+	else
+	  nei = nei->next;
       }
     }
   }
@@ -1504,9 +1506,11 @@ RemoveInterGroupLinks(struct node_gra *net)
   while ((p = p->next) != NULL) {
     thisgroup = p->inGroup;
     n = p->neig;
-    while ((n = n->next) != NULL) {
-      if(n->ref->inGroup != thisgroup)
-	RemoveLink(p, n->ref, 0);
+    while (n->next != NULL) {
+      if(n->next->ref->inGroup != thisgroup)
+	RemoveLink(p, n->next->ref, 0);
+      else
+	n = n->next;
     }
   }
 }
-- 
2.43.0


From 868caa8b3e22d673d02649ebee307a311cf30348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:13 +0000
Subject: [PATCH 20/70] fix: fraction of correctly classified nodes counted
 every node twice in its denominator

---
 src/modules.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 96102ed..9f2eabd 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1763,7 +1763,6 @@ CorrectlyClassified(struct group *refpart, struct group *actpart)
   /* Count correctly classified nodes */
   g2 = actpart;
   while ((g2 = g2->next) != NULL) {
-    nnod += g2->size;
     if (map[g2->label] > -1){
       p = g2->nodeList;
       while ((p = p->next) != NULL) {
-- 
2.43.0


From 8fcfd9debe19458e21c569c9f13b3322008743bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:25 +0000
Subject: [PATCH 21/70] fix: creating a partition with groups of a given size
 ran past the last node

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 9f2eabd..6ed049a 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -197,7 +197,7 @@ CreateEquiNPartition(struct node_gra *net, int gsize)
   for (i=0; i<=ngroups; i++) {
     g = CreateGroup(part,i);
     for (j=0; j<gsize; j++) {
-      if ((p = p->next) != NULL) {
+      if (p != NULL && (p = p->next) != NULL) {
 	AddNodeToGroup(g, p);
       }
     }
-- 
2.43.0


From 22634d1430e99d3f678510b9330cba6c85402544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:49 +0000
Subject: [PATCH 22/70] fix: partition created from the marks of the nodes had
 wrong link counts

---
 src/modules.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 6ed049a..42e1984 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -277,6 +277,10 @@ CreatePartitionFromInGroup(struct node_gra *net)
     AddNodeToGroup(glist[p->inGroup], p);
   }
 
+  /* The nodes were already marked when they were added, so links have
+     to be counted again */
+  MapPartToNet(part, net);
+
   /* Free memory and return */
   free(glist);
   return part;
-- 
2.43.0


From dec1245e59cbd93c91eed9723dc4b449d5d7ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 23/70] fix: rounding errors gave nodes of regular modules an
 undefined or arbitrary within-module relative strength

---
 src/modules.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 42e1984..babe284 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1976,7 +1976,7 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   struct group *group=NULL;
 
   double inStrength;
-  double kmean = 0.0, k2mean = 0.0, kstd = 0.0;
+  double kmean = 0.0, kvar = 0.0, kstd = 0.0;
 
   // Find the group of the node
   group = part;
@@ -1989,14 +1989,18 @@ WithinModuleRelativeStrength(struct node_gra *node, struct group *part)
   while ((p = p->next) != NULL) {
     inStrength = StrengthToGroup(p->ref, group);
     kmean += (double)inStrength;
-    k2mean += (double)inStrength * (double)inStrength;
   }
   kmean /= (double)(group->size);
-  k2mean /= (double)(group->size);
-  kstd = sqrt(k2mean - kmean * kmean);
+  p = group->nodeList;
+  while ((p = p->next) != NULL) {
+    inStrength = StrengthToGroup(p->ref, group);
+    kvar += (inStrength - kmean) * (inStrength - kmean);
+  }
+  kstd = sqrt(kvar / (double)(group->size));
 
-  // Calculate the z-score
-  if (kstd == 0.0)
+  // Calculate the z-score (a deviation within the rounding errors of
+  // the mean is null)
+  if (kstd <= 1e-9 * kmean)
     z = 0.0;
   else
     z = ((double)StrengthToGroup(node, group) - kmean) / kstd;
-- 
2.43.0


From 79a3b6fac5366b682c6c572fe0481d69e085ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:47 +0000
Subject: [PATCH 24/70] fix: nodes taken out of a group were still counted as
 its members

---
 src/modules.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index babe284..335d359 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -484,6 +484,9 @@ RemoveNodeFromGroup(struct group *g, struct node_gra *node)
     g->inlinksW -= inweight;
     g->outlinksW = g->totlinksW - g->inlinksW;
 
+    /* Update the properties of the node */
+    node->inGroup = -1;
+
     /* Done */
     return 1;
   }
-- 
2.43.0


From fac3a8307de5c67e6533f5497ce290b3a18a8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 25/70] fix: legacy annealing crashed or never ended without a
 temperature step, with one node or group, or no links

---
 src/modules.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 335d359..1e8f4d8 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2358,6 +2358,8 @@ SACommunityIdent(struct node_gra *net,
     break;
 
   case 'r':        /*  Random placement of nodes in groups */
+    if (ngroup == 0)
+      ngroup = nnod;
     glist = (struct group **) calloc(ngroup, sizeof(struct group *));
     lastg = part;
     for (i=0; i<ngroup; i++)
@@ -2393,6 +2395,11 @@ SACommunityIdent(struct node_gra *net,
   T = Ti;
   energy = Modularity(part);
 
+  /* There is nothing to optimize with a single node, a single group or
+     no links */
+  if (nnod < 2 || ngroup < 2 || totallinks == 0)
+    count = limit;
+
   /* Temperature loop */
   while (T > Tf && count < limit) {
 
@@ -2637,7 +2644,8 @@ SACommunityIdent(struct node_gra *net,
   } /*  End of simulated annealing */
  
   /* Free memory */
-  RemovePartition(best_part);
+  if (best_part != NULL)
+    RemovePartition(best_part);
   FreeLabelDict(nodeDict);
   free(glist);
   free(nlist);
-- 
2.43.0


From 33f60a8b52567dd1abd9802609db2d1d052da43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:14 +0000
Subject: [PATCH 26/70] fix: legacy annealing returned the partition it ended
 at, even if it had reached a better one

---
 src/modules.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/modules.c b/src/modules.c
index 1e8f4d8..b7aefc3 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2643,6 +2643,15 @@ SACommunityIdent(struct node_gra *net,
     
   } /*  End of simulated annealing */
  
+  /* If the SA ended at a worse partition than the best one so far
+     (because the final temperature was reached), return the best one */
+  if (best_part != NULL && energy + EPSILON_MOD < best_E) {
+    RemovePartition(part);
+    part = best_part;
+    MapPartToNet(part, net);
+    best_part = NULL;
+  }
+
   /* Free memory */
   if (best_part != NULL)
     RemovePartition(best_part);
-- 
2.43.0


From a132d6d3b078632131f6a5824de88d652ec0d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:14 +0000
Subject: [PATCH 27/70] fix: legacy split of a group by its clusters picked the
 list header when the random draw was zero

---
 src/modules.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index b7aefc3..71cab5e 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -2166,9 +2166,9 @@ SAGroupSplit(struct group *targ,
     /* Merge groups randomly until only two are left */
     while (ngroups > 2) {
       /* Select two random groups */
-      g1 = ceil(gsl_rng_uniform(gen)* (double)ngroups);
+      g1 = floor(gsl_rng_uniform(gen) * (double)ngroups) + 1;
       do {
-	g2 = ceil(gsl_rng_uniform(gen)* (double)ngroups);
+	g2 = floor(gsl_rng_uniform(gen) * (double)ngroups) + 1;
       } while (g2 == g1);
       
       glist[0] = split;
-- 
2.43.0


From d59591a9b4a564f61753ff646af88698d9c74e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 28/70] fix: average squared degree was truncated to an integer

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index d771337..37b50bd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1433,7 +1433,7 @@ AverageSquaredDegree(struct node_gra *root)
     k2sum += k * k;
   }
 
-  return k2sum / nnod;
+  return (double)k2sum / (double)nnod;
 
 }
 
-- 
2.43.0


From 715ba3d11f2fcd8ce79722223824662a178f0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 29/70] fix: removing isolated nodes leaked their labels and
 adjacency lists

---
 src/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 37b50bd..2fcb52a 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -852,7 +852,7 @@ RemoveIsolatedNodes(struct node_gra *root)
     if (NodeDegree(p->next) ==  0) {
       temp = p->next;
       p->next = (p->next)->next;
-      free(temp);
+      FreeNode(temp);
       nrem++;
     }
     else{
-- 
2.43.0


From 60b76c08fa3b4f6492201d98cfd845044b73e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 30/70] fix: weighted bipartite projection truncated its
 weights to integers

---
 src/bipartite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 8323fe4..ce7e3cd 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -610,7 +610,7 @@ ProjectBipartWeighted(struct binet *binet)
   struct node_gra *p1 = NULL, *p2 = NULL;
   void *dict = NULL;
   struct node_tree *ntree=NULL;
-  int weight;
+  double weight;
 
   /* Create the header of the projection network */
   last = projnet = CreateHeaderGraph();
@@ -631,14 +631,14 @@ ProjectBipartWeighted(struct binet *binet)
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
     while ((p2 = p2->next) != NULL) {
-	  weight = (double)SumProductsOfCommonWeightsBipart(p1,p2);
+	  weight = SumProductsOfCommonWeightsBipart(p1,p2);
       if (weight > 0) {
 	AddAdjacency(GetNodeDict(p1->label, dict),
 		     GetNodeDict(p2->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
 	AddAdjacency(GetNodeDict(p2->label, dict),
 		     GetNodeDict(p1->label, dict),
-		     0, 0, (double)weight, 0);
+		     0, 0, weight, 0);
       }
     }
   }
-- 
2.43.0


From 65223794f56f02d975566644d8ebba6b18789a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:38 +0000
Subject: [PATCH 31/70] fix: removing a node of a bipartite network wrote
 debugging output to stderr

---
 src/bipartite.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index ce7e3cd..20b934d 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -395,7 +395,6 @@ RemoveNodeBipart(struct binet *binet, char *label, int set)
   nei = node->neig;
   while (nei->next != NULL) {
     RemoveLink(node, nei->next->ref, 1);
-    fprintf(stderr, "degree: %d\n", NodeDegree(node));
   }
 
   /* Remove the node */
-- 
2.43.0


From 5d1d272f5d9194d2d1aa304be4ab92fb7b90a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 32/70] fix: bipartite participation coefficient was undefined
 for nodes that share no team

---
 src/bipartite.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 20b934d..ff49740 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -1047,12 +1047,13 @@ ParticipationCoefficientBipart(struct node_gra *node)
     }
   }
 
-  /* Compute the participation coefficient */
-  for (i=0; i<=maxNum; i++)
+  /* Compute the participation coefficient (zero for nodes that share
+     no team with any other node) */
+  for (i=0; norm>0 && i<=maxNum; i++)
     P +=
       (double)inGroupCount[i] * (double)inGroupCount[i] /
       ((double)norm * (double)norm);
-  P = 1.0 - P;
+  P = norm>0 ? 1.0 - P : 0.0;
 
   /* Free memory */
   free_i_vec(inGroupCount);
-- 
2.43.0


From 7e867fc69ee3defc16b25a595f6bfcc236955170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 33/70] fix: table of bipartite roles went to stdout instead of
 the file given

---
 src/bipartite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index ff49740..ab182f9 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -993,7 +993,7 @@ FPrintTabNodesBipart(FILE *outf, struct binet *network,  struct group *modules,
 		z = WithinModuleRelativeStrength(n->ref, g);
 		role = GetRole(P,z) + 1;
 	  }
-	  printf ("%-20s\t%d\tR%d\t%f\t%f\n",
+	  fprintf (outf, "%-20s\t%d\tR%d\t%f\t%f\n",
 			  n->nodeLabel,
 			  group_nb,
 			  role,
-- 
2.43.0


From d648eb56e3190d02ead0a3ed92aa93722d213448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 34/70] fix: distance histogram wrote debugging output to
 stdout

---
 src/graph.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index 2fcb52a..3edc744 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1507,7 +1507,6 @@ FPrintDistanceHistogram(FILE *file, struct node_gra *root)
   while(p->next != NULL){
     counter++;
     d = 0;
-    printf("%d %d %d %d\n",counter,nodes,(p->next)->num,*size);
     ResetNodesState(root);
     p = p->next;
 
-- 
2.43.0


From 5a2715888421f34940cee907f9e8cfdbecca9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 35/70] fix: square clustering crashed on disconnected networks
 and wrote debugging output to stdout

---
 src/graph.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 3edc744..f3a86bd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1878,7 +1878,6 @@ SquareClustering(struct node_gra *root)
   int C_v;
   int npre;
   int totnodes;
-  int k1b;
 
   C_av = 0.0;
   res_size = 0;
@@ -1897,20 +1896,20 @@ SquareClustering(struct node_gra *root)
     if(*size<totnodes)
       lp = RenewQueue(list,lp,size,0); // First neighbors
     else{ // If the size of the cluster is 1
+      ClearList(list,size);
+      free(list);
       return -1.0;
     }
-    k1b = *size-1;
     if(*size<totnodes){
       lp = RenewQueue(list,lp,size,1); // Second neighbors
 
       k1 = k2 = 0;
       pl = (list->next)->next; // Pointer to the first neighbor
-      while(pl->d<2){
+      while(pl != NULL && pl->d<2){
 	pl = pl->next;
 	k1++;
       }   // count first neighbors and place the pointer at the first
 	  // second neighbor
-      printf("%d %d = %d %d\n",p->num+1,k1,k1b,totnodes);
     
       C_v = 0;
       while(pl != NULL){
@@ -1920,7 +1919,7 @@ SquareClustering(struct node_gra *root)
 	pl = pl->next;
       }
 
-      if(k1>1){
+      if(k1>1 && k2>0){
 	C_av += (double)(C_v)/(double)(k2*k1*(k1-1));
       }
       else
-- 
2.43.0


From a5f72f9b290a260fbef3bfa33861862455f5c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 36/70] fix: square clustering of a node leaked its list when
 it was not defined

---
 src/graph.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index f3a86bd..3d748e7 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1997,8 +1997,10 @@ OneNodeSquareClustering(struct node_gra *node,
   size = &res_size;
   list = CreateHeaderList();
   
-  if(NodeDegree(node) == 0)
+  if(NodeDegree(node) == 0){
+    free(list);
     return -1;
+  }
 
   ResetNodesState(root);
     
@@ -2029,11 +2031,17 @@ OneNodeSquareClustering(struct node_gra *node,
       pl = pl->next;
     }
 
-    if(k1<= 1)
+    if(k1<= 1){
+      ClearList(list,size);
+      free(list);
       return -2; // only 1 first neighbor!!
+    }
   }
-  else
+  else{
+    ClearList(list,size);
+    free(list);
     return -3; // all nodes are first neighbors!!
+  }
   
   T = (double)C_v/((double)k2*(double)k1*(double)(k1-1));
 
-- 
2.43.0


From d2cfcea7c204eb3b1430c0381bf1ddf41d34f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 37/70] fix: getting the largest strongly connected set leaked
 its work space

---
 src/graph.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph.c b/src/graph.c
index 3d748e7..b1acb3e 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2687,6 +2687,9 @@ GetLargestStronglyConnectedSet(struct node_gra *root,
       if (maxS > nnod/2 || maxS > thres) {
 	ClearList(list, size);
 	RemoveGraph(root_cop); // WAS COMMENTED OUT?!?!?!?!
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
-- 
2.43.0


From 50e29212b0e6b6454a6154fa569bcbf4994d09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 38/70] fix: getting the largest weakly connected set leaked
 its work space

---
 src/graph.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index b1acb3e..71ac770 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2830,7 +2830,10 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
       giant = root_loc;
       if(maxS>nnod/2 || maxS>thres ){
 	ClearList(list,size);
-/* 	RemoveGraph(root_cop); */
+	RemoveGraph(root_cop);
+	free(list);
+	free_i_vec(selected);
+	free_i_vec(this_net);
 	return giant;
       }
     }
-- 
2.43.0


From 94eed8f2eaa40473ef1deacdf69a29e9c41b52e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 39/70] fix: components lost all their links, unless they
 contained the first node

---
 src/graph.c | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 71ac770..f2fdd69 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2852,29 +2852,6 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
   return giant;
 }
 
-//Function to remove those links that go to other components
-////It is necessary for the next function
-void ClearAdjacencies(struct node_gra *p,int *net)
-{
-  struct node_lis *nei,*temp;
-
-  while(p->next!=NULL){
-    p=p->next;
-    nei=p->neig;
-    while(nei->next!=NULL){
-      if(net[(nei->next)->node]==0){
-        temp=nei->next;
-        if(temp->next==NULL)  nei->next=NULL;
-        else  nei->next=temp->next;
-        free(temp);
-      }else{
-        nei=nei->next;
-      }
-    }
-  }
-}
-
-
 // Returns the number of connected components found. 
 // net_list must have been initialized, eg. struct node_gra *llista[1000];
 int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
@@ -2962,7 +2939,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
       d++;
     }while(*size!=sizeAnt);
 
-    ClearAdjacencies(network_loc,thisNet);
+    CleanAdjacencies(network_loc);
     RewireAdjacencyByLabel(network_loc);
 
     net_list[numComponents]=network_loc;
-- 
2.43.0


From 62b46aa3a355fd020f61ea10637d7e6ba484850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 40/70] fix: components of networks with more than 10000 nodes
 were written past their arrays

---
 src/graph.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index f2fdd69..896c423 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2871,12 +2871,12 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   int d;
 
   int numComponents=0;
-  int MAX_SIZE_NET=10001;
 
-  selected=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
-  thisNet=(int *)malloc(sizeof(int)*MAX_SIZE_NET);
+  numNodes=CountNodes(network);
+  selected=(int *)malloc(sizeof(int)*numNodes);
+  thisNet=(int *)malloc(sizeof(int)*numNodes);
 
-  for(i=0;i<MAX_SIZE_NET;i++)
+  for(i=0;i<numNodes;i++)
     selected[i]=0;
 
   network_cop=CopyNetwork(network);
@@ -2884,7 +2884,6 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   res1=0;
   size=&res1;
 
-  numNodes=CountNodes(network);
   //printf("Network has %i nodes\nDetecting connected components\n",numNodes);
   list=CreateHeaderList();
 
@@ -2898,7 +2897,7 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
     selected[p->num]=1;
 
 
-    for(i=0;i<MAX_SIZE_NET;i++)
+    for(i=0;i<numNodes;i++)
       thisNet[i]=0;
     d=0;
 
@@ -2950,6 +2949,8 @@ int GetAllConnectedSets(struct node_gra *network,struct node_gra **net_list)
   }while(anod<numNodes);
 
   free(list);
+  free(selected);
+  free(thisNet);
   RemoveGraph(network_cop);
 
   return numComponents;
-- 
2.43.0


From 447e44818dd76fa092047a172c03b07d269471eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:01 +0000
Subject: [PATCH 41/70] fix: largest weakly connected set of directed networks
 missed nodes

---
 src/graph.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graph.c b/src/graph.c
index 896c423..e06361f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -2785,8 +2785,8 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
     while (p3->next != NULL){
       p3 = p3->next;
 
-      if ((AreConnectedList(root_cop,GetNode(p3->num,root_cop),this_net) == 1)
-	  && (selected[p3->num] == 0)) {
+      if ((selected[p3->num] == 0) &&
+	  (AreConnectedList(root_cop,GetNode(p3->num,root_cop),this_net) == 1)) {
 
 	temp = CreateNodeGraph(root_loc, p3->label);
 	temp->num = p3->num;
@@ -2813,6 +2813,8 @@ GetLargestWeaklyConnectedSet(struct node_gra *root,int thres)
 	  d++;
 	}while(*size != size_ant);
 
+	// Nodes already discarded may reach the set now
+	p3 = p;
       }
     }
 
-- 
2.43.0


From 9c5a02fd6897c2029d4c4ee01301dc85a28283df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 42/70] fix: lines of 1000 characters or more were counted
 several times

---
 src/tools.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tools.c b/src/tools.c
index 4b05dc3..fa06e19 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -609,12 +609,15 @@ int
 CountLinesInFile(char *inFileName)
 {
   char line[1000];
-  int n=0;
+  int n=0, start=1;
   FILE *inFile;
 
   inFile = fopen(inFileName, "r");
-  while (fgets(line, 1000, inFile))
-    n++;
+  while (fgets(line, 1000, inFile)) {
+    if (start)
+      n++;
+    start = (strchr(line, '\n') != NULL); // long lines come in pieces
+  }
   fclose(inFile);
 
   return n;
-- 
2.43.0


From 446bbcfb91d2a05422e389dc3d56550e625e9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 43/70] fix: adding random links to a directed network added
 them in both directions

---
 src/graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.c b/src/graph.c
index e06361f..985cd6f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -998,7 +998,8 @@ AddRandomLinks(struct node_gra *net,
       n2 = gsl_rng_uniform_int(gen, nnod);
     } while ((n1 == n2) || IsThereLink(nlist[n1], nlist[n2]) == 1);
     AddAdjacency(nlist[n1], nlist[n2], 0, 0, 1.0, 0);
-    AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
+    if (symmetric_sw != 0)
+      AddAdjacency(nlist[n2], nlist[n1], 0, 0, 1.0, 0);
   }
 
   /* Done */
-- 
2.43.0


From 84d37854bb1a808543e457c3185dbcd87ddddea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 44/70] fix: color of a team was out of range when the random
 draw was zero or the probabilities add up to less than it

---
 src/bipartite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index ab182f9..e16bcce 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -229,10 +229,10 @@ BuildModularBipartiteNetwork(int *modSizes,
       dice = gsl_rng_uniform(gen);
       cum = 0.0;
       teamcol = -1;
-      while (cum < dice) {
+      do {
 	teamcol++;
 	cum += col_prob[teamcol];
-      }
+      } while (cum <= dice && teamcol < nmod - 1);
     }
     else {
       teamcol = floor(gsl_rng_uniform(gen) * nmod);
-- 
2.43.0


From c782962367e2be0a1f93b515f5bb15e3164e4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 45/70] fix: modularbipart ignored the size of the teams

---
 utils/main_modularbipart.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index c8514b2..b50a7c0 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -36,7 +36,7 @@ main(int argc, char **argv)
 
   /* Build the network */
   binet = BuildModularBipartiteNetwork(NULL, modSize, nMod, NULL,
-				       nTeam, modSize, modSize, -1.,
+				       nTeam, teamSize, teamSize, -1.,
 				       teamHomog, randGen);
   FPrintPajekFileBipart ("binet.net", binet, 0, 0);
 
-- 
2.43.0


From 1087d3f8399381d5f066687f7ebe656a3a7b9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 46/70] fix: netrandomize read past its arguments when it got
 no seed

---
 utils/main_netrandomize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 80d52e4..eee87b7 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -26,7 +26,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: netrandomize.out net_file seed\n\n");
     return -1;
   }
-- 
2.43.0


From e48be77e7bf41e5a9311008b1d4cf49c86e50824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 47/70] fix: randomizing a network never ended when none of its
 links could be switched

---
 src/bipartite.c | 28 +++++++++++++++++++++++++++-
 src/graph.c     | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index e16bcce..dadaf2a 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -650,7 +650,31 @@ ProjectBipartWeighted(struct binet *binet)
 
 /*
   ---------------------------------------------------------------------
-  Randomize links in a bipartite network
+  Returns 1 if two of the links can be switched without creating
+  repeated links. A switch can always be undone, so that if there is
+  one, there is always one as links are switched.
+  ---------------------------------------------------------------------
+*/
+static int
+IsLinkSwitchPossibleBipart(struct node_gra **ori, struct node_gra **des,
+			   int nlink)
+{
+  int i, j;
+
+  for (i=0; i<nlink; i++)
+    for (j=0; j<i; j++)
+      if (ori[i] != ori[j] && des[i] != des[j] &&
+	  IsThereLink(ori[i], des[j]) == 0 &&
+	  IsThereLink(ori[j], des[i]) == 0)
+	return 1;
+
+  return 0;
+}
+
+/*
+  ---------------------------------------------------------------------
+  Randomize links in a bipartite network. If no pair of links can be
+  switched, the network is returned as it is.
   ---------------------------------------------------------------------
 */
 struct binet *
@@ -682,6 +706,8 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
 
   if (coun !=  nlink)
     fprintf(stderr, "Error in RandomizeBipart: coun !=  nlink!!\n");
+  if (IsLinkSwitchPossibleBipart(ori, des, nlink) == 0)
+    niter = 0;
 
   /* Randomize the network */
   for (i=0; i<niter; i++) {
diff --git a/src/graph.c b/src/graph.c
index 985cd6f..3f6e2da 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -1279,10 +1279,39 @@ RenumberNodes(struct node_gra *net)
 // ---------------------------------------------------------------------
 // ---------------------------------------------------------------------
 
+/*
+  ---------------------------------------------------------------------
+  Returns 1 if two of the links can be switched without creating
+  self-links or repeated links. A switch can always be undone, so that
+  if there is one, there is always one as links are switched.
+  ---------------------------------------------------------------------
+*/
+static int
+IsLinkSwitchPossible(struct node_gra **ori, struct node_gra **des, int nlink)
+{
+  int i, j;
+
+  for (i=0; i<nlink; i++) {
+    for (j=0; j<i; j++) {
+      if (ori[i] == ori[j] || ori[i] == des[j] ||
+	  des[i] == ori[j] || des[i] == des[j])
+	continue;
+      if ((IsThereLinkSoft(ori[i], des[j]->num) == 0 &&
+	   IsThereLinkSoft(des[i], ori[j]->num) == 0) ||
+	  (IsThereLinkSoft(ori[i], ori[j]->num) == 0 &&
+	   IsThereLinkSoft(des[i], des[j]->num) == 0))
+	return 1;
+    }
+  }
+
+  return 0;
+}
+
 /*
   ---------------------------------------------------------------------
   Randomize the links of a network using the Markov chain switching
-  algorithm
+  algorithm. If no pair of links can be switched, the network is
+  returned as it is.
   ---------------------------------------------------------------------
 */
 struct node_gra *
@@ -1318,6 +1347,8 @@ RandomizeSymmetricNetwork(struct node_gra *net,
   }
   if(coun !=  nlink)
     fprintf(stderr, "Error in RandomizeNetwork: coun != nlink!!\n");
+  if (IsLinkSwitchPossible(ori, des, nlink) == 0)
+    niter = 0;
 
   /* Randomize the links */
   for (i=0; i<niter; i++) {
-- 
2.43.0


From 87ab53776c4904fa4662cf58b696dfcd02d89290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 48/70] fix: preferential attachment lost links when a new node
 drew itself

---
 src/models.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models.c b/src/models.c
index c947bb6..9cda97b 100644
--- a/src/models.c
+++ b/src/models.c
@@ -117,7 +117,8 @@ PAGraph(int S, int m, gsl_rng *gen)
 	/* preferential attachment */
 	node2 = paList[(int)(gsl_rng_uniform(gen) * norm)];
       }
-      while (IsThereLink(nodeList[node1], nodeList[node2]) == 1);
+      while (node2 == node1 ||
+	     IsThereLink(nodeList[node1], nodeList[node2]) == 1);
       AddAdjacency(nodeList[node1], nodeList[node2], 0, 0, 0, 0);
       AddAdjacency(nodeList[node2], nodeList[node1], 0, 0, 0, 0);
       paList[norm++]=node1;
-- 
2.43.0


From 013e2aeeff3c98bf6e30bcc8a35c2cbf10493e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 49/70] fix: network readers kept a broken network's memory and
 took a read error for the end of the file

---
 src/bipartite.c | 19 +++++++++++++++++--
 src/graph.c     | 17 +++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index dadaf2a..bf35ebe 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -77,14 +77,14 @@ FBuildNetworkBipart(FILE *inFile,
       noReadItems = sscanf(line, "%s %s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
-		return NULL;}
+		goto failure;}
 	  weight = 1;
     }
     else {
       noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
-		return NULL;
+		goto failure;
 	  }
     }
 
@@ -116,6 +116,12 @@ FBuildNetworkBipart(FILE *inFile,
     AddAdjacency(n2, n1, 0, add_weight_sw, weight, 0);
   }
 
+  /* An error while reading is not the end of the network */
+  if (ferror(inFile)) {
+    printf ("Failed to read input: error while reading the file.\n");
+    goto failure;
+  }
+
   /* Free memory */
   FreeLabelDict(dict1);
   FreeLabelDict(dict2);
@@ -126,6 +132,15 @@ FBuildNetworkBipart(FILE *inFile,
   net->net1 = root1;
   net->net2 = root2;
   return net;
+
+  /* Do not return, or keep, half a network */
+ failure:
+  FreeLabelDict(dict1);
+  FreeLabelDict(dict2);
+  free(line);
+  RemoveGraph(root1);
+  RemoveGraph(root2);
+  return NULL;
 }
 
 /*
diff --git a/src/graph.c b/src/graph.c
index 3f6e2da..c88f771 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -558,7 +558,7 @@ FBuildNetwork(FILE *inFile,
       noReadItems = sscanf(line, "%s %s", label1, label2);
 	  if(noReadItems != 2){
 		printf ("Failed to read input: not enough fields in line %s (%d!=2). \n",line, noReadItems);
-		return NULL;
+		goto failure;
 	  }
 	  weight = 1;
     }
@@ -566,7 +566,7 @@ FBuildNetwork(FILE *inFile,
       noReadItems = sscanf(line,"%s %s %lf", label1, label2, &weight);
 	  if(noReadItems != 3){
 		printf ("Failed to read input: not enough fields in line %s (%d!=3). \n",line, noReadItems);
-		return NULL;
+		goto failure;
 	  }
     }
    
@@ -604,10 +604,23 @@ FBuildNetwork(FILE *inFile,
     }
   }
 
+  // An error while reading is not the end of the network
+  if (ferror(inFile)) {
+    printf ("Failed to read input: error while reading the file.\n");
+    goto failure;
+  }
+
   // Done
   free(line);
   FreeLabelDict(node_dict);
   return root;
+
+  // Do not return, or keep, half a network
+ failure:
+  free(line);
+  FreeLabelDict(node_dict);
+  RemoveGraph(root);
+  return NULL;
 }
 
 
-- 
2.43.0


From 1104f7d40841ad35246f1f17600cfe459f4642b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 50/70] fix: FReadPartition overflowed its separator, never
 ended on an empty field and added an empty group

---
 src/modules.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 71cab5e..6c89017 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -112,25 +112,27 @@ module, with the names of the nodes separated by tabulations.
 struct group*
 FReadPartition(FILE *inF){
   char label[MAX_LABEL_LENGTH];
-  char sep[2];
-  int noReadItems = 0;
+  int sep = 0;
 
   struct group *g = NULL;
   struct group *part = NULL;
   int npart = 0, nfields = 0;
 
   part = CreateHeaderGroup();
-  g = CreateGroup(part, npart);
 
-  while (!feof(inF)){
-	nfields=fscanf(inF,"%[^\t\n]%[\t\n]",&label,&sep);
-	if (nfields) {
-	  AddNodeToGroupSoft(g, label);
-	  if(sep[0]=='\n'){
-		npart++;
+  while (sep != EOF){
+	nfields=fscanf(inF,"%[^\t\n]",label);
+	if (nfields == 1) {
+	  /* The first name in a line opens the group */
+	  if (g == NULL) {
 		g = CreateGroup(part, npart);
+		npart++;
 	  }
+	  AddNodeToGroupSoft(g, label);
 	}
+	sep = fgetc(inF);
+	if (sep == '\n')
+	  g = NULL;
   }
   return(part);
 }
-- 
2.43.0


From 38bbe6c76e8251e724b3a5167dab0d8838e841f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 51/70] fix: FCreatePartition never ended on a partition cut
 short

---
 src/modules.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index 6c89017..d7e648b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -156,14 +156,11 @@ FCreatePartition(FILE *inF)
   part = CreateHeaderGroup();
 
   /* Read the file */
-  while (!feof(inF)) {
+  while ((noReadItems = fscanf(inF, "%s\n", &label[0])) == 1) {
     g = CreateGroup(part, npart);
     npart++;
-    noReadItems = fscanf(inF, "%s\n", &label[0]);
-	if (noReadItems != 1)
-	  printf ("Failed to read input, incorrect field number (%d != 1)\n",noReadItems);
 
-    while (strcmp(label, separator) != 0) {
+    while (noReadItems == 1 && strcmp(label, separator) != 0) {
       AddNodeToGroupSoft(g, label);
       noReadItems = fscanf(inF, "%s\n", &label[0]);
 	  if (noReadItems != 1)
-- 
2.43.0


From 05f9234abd218e843ece8292848a28df36e115ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 52/70] fix: MapPartToNetSoft changed the partition, leaked,
 and crashed on nodes outside the network

---
 src/modules.c | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/modules.c b/src/modules.c
index d7e648b..5d12c2b 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1387,7 +1387,6 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   struct group *g = NULL;
   struct node_lis *nod;
   void *nodeDict = NULL;
-  struct node_tree *treeNode = NULL;
   struct node_gra *node = NULL;
 
   /* Reset the group of all nodes */
@@ -1396,30 +1395,23 @@ MapPartToNetSoft(struct group *part, struct node_gra *net)
   /* Create the nodeDict for fast access to nodes by label */
   nodeDict = MakeLabelDict(net);
 
-  /* Go through the groups, reset attributes, and point pointers */
+  /* Go through the groups */
   g = part;
   while ((g = g->next) != NULL) {
-    g->totlinks = 0;
-    g->inlinks = 0;
-    g->outlinks = 0;
-    g->totlinksW = 0.0;
-    g->inlinksW = 0.0;
-    g->outlinksW = 0.0;
-
     nod = g->nodeList;
     while ((nod = nod->next) != NULL) {
-      /* Get the node_gra by label */
-      treeNode = CreateNodeTree();
-      strcpy(treeNode->label, nod->nodeLabel);
-      node = (*(struct node_tree **)tfind((void *)treeNode,
-					  &nodeDict,
-					  NodeTreeLabelCompare))->ref;
-      FreeNodeTree(treeNode);
+      /* Get the node_gra by label, if it is in this network at all */
+      node = GetNodeDict(nod->nodeLabel, nodeDict);
+
       /* Update the properties of the node */
-      node->inGroup = g->label;
+      if (node != NULL)
+	node->inGroup = g->label;
     }
   }
 
+  /* Free memory allocated locally */
+  FreeLabelDict(nodeDict);
+
   return;
 }
 
-- 
2.43.0


From 9b090a51a4af092330fb7a213c95e5d8494dc551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 53/70] fix: BlockModel halved the connection probability
 inside a group

---
 src/modules.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules.c b/src/modules.c
index 5d12c2b..163bd56 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -778,7 +778,7 @@ BlockModel(struct group *part, char type_sw, int list_sw)
 	    break;
 	  case 'p':
 	    if (g1 == g2)
-	      bij = (double)NG2GLinks(g1, g2) /
+	      bij = 2.0 * (double)NG2GLinks(g1, g2) /
 		(double)(g1->size * (g1->size - 1));
 	    else
 	      bij = (double)NG2GLinks(g1, g2) /
-- 
2.43.0


From f0c595e15c49007cb03647e3e8027e1b371d2bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 54/70] fix: ArrangeComponents summed centers into memory it
 had not set, and leaked

---
 src/layout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 3c78de9..e0e04dd 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -151,6 +151,7 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
       dxtot[g->label] = dytot[g->label] = 0.0;
 
       // Find the center of the component and of the network
+      xce[g->label] = yce[g->label] = 0.0;
       node = g->nodeList;
       while(node->next != NULL) {
 	node = node->next;
@@ -236,6 +237,8 @@ void ArrangeComponents(struct node_gra *net, gsl_rng *gen)
     free(xce);
     free(yce);
     free(rad);
+    free(dxtot);
+    free(dytot);
     free(glist);
     RemoveGraph(cnet);
     RemovePartition(part);
-- 
2.43.0


From c5ea78417518463d247a62df93ead9cbdaa6d96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 55/70] fix: a layout without extent in a direction divided by
 zero and left its boxes

---
 src/layout.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index e0e04dd..4caf0dd 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -273,8 +273,10 @@ void NormalizeCoordinates(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
+    temp->coorX = (xmax > xmin) ?
+      (temp->coorX - xmin) / (xmax - xmin) : 0.0;
+    temp->coorY = (ymax > ymin) ?
+      (temp->coorY - ymin) / (ymax - ymin) : 0.0;
   }
 }
 
@@ -312,9 +314,12 @@ void NormalizeCoordinates3D(struct node_gra *net)
   while (temp->next != NULL) {
     temp = temp->next;
 
-    temp->coorX = (temp->coorX - xmin) / (xmax - xmin);
-    temp->coorY = (temp->coorY - ymin) / (ymax - ymin);
-    temp->coorZ = (temp->coorZ - zmin) / (zmax - zmin);
+    temp->coorX = (xmax > xmin) ?
+      (temp->coorX - xmin) / (xmax - xmin) : 0.0;
+    temp->coorY = (ymax > ymin) ?
+      (temp->coorY - ymin) / (ymax - ymin) : 0.0;
+    temp->coorZ = (zmax > zmin) ?
+      (temp->coorZ - zmin) / (zmax - zmin) : 0.0;
   }
 }
 
@@ -334,8 +339,8 @@ int AssignBox(struct node_gra *node, int nbox,
   ymax = ymax + (ymax - ymin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
+  normx = (xmax > xmin) ? (node->coorX - xmin) / (xmax - xmin) : 0.0;
+  normy = (ymax > ymin) ? (node->coorY - ymin) / (ymax - ymin) : 0.0;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
 
@@ -756,9 +761,9 @@ int AssignBox3D(struct node_gra *node, int nbox,
   zmax = zmax + (zmax - zmin) * 1.e-5;
 
   // Determine row and column
-  normx = (node->coorX - xmin) / (xmax - xmin);
-  normy = (node->coorY - ymin) / (ymax - ymin);
-  normz = (node->coorZ - zmin) / (zmax - zmin);
+  normx = (xmax > xmin) ? (node->coorX - xmin) / (xmax - xmin) : 0.0;
+  normy = (ymax > ymin) ? (node->coorY - ymin) / (ymax - ymin) : 0.0;
+  normz = (zmax > zmin) ? (node->coorZ - zmin) / (zmax - zmin) : 0.0;
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
   intz = floor(normz * (double)nbox);
-- 
2.43.0


From 37df91df8600258850ee540b37d1b07772db1e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 56/70] fix: PotentialEnergy3D only counted the first plane of
 boxes

---
 src/layout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout.c b/src/layout.c
index 4caf0dd..4a34826 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -842,7 +842,7 @@ double PotentialEnergy3D(struct node_gra *net,
 
   // Electrostatic interaction with all other nodes in neighboring
   // boxes
-  nbox = boxprow * boxprow;
+  nbox = boxprow * boxprow * boxprow;
   for (box=0; box<nbox; box++) {
     
     // Neighboring boxes
-- 
2.43.0


From f868c4d2961879ad93f32df8e7a19d8211465cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:00 +0000
Subject: [PATCH 57/70] fix: the 3D layouts mixed their progress with the
 coordinates on stdout

---
 src/layout.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index 4a34826..126a4b1 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -1086,7 +1086,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
       nbox = 1;
   }
   nb3 = nbox * nbox * nbox;
-  printf("# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
+  fprintf(stderr, "# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
 
   // Allocate memory
   Fx = allocate_d_vec(nnod);
@@ -1196,7 +1196,7 @@ MDGraphLayout3D(struct node_gra *net, double drag, double dt,
     }
 
     // Screen output
-    printf("%d %g\n", i, T/(double)nnod);
+    fprintf(stderr, "%d %g\n", i, T/(double)nnod);
 /*     printf("%d %g %g %g\n", i, T/(double)nnod, */
 /* 	   U/(double)nnod, */
 /* 	   (T+U)/(double)nnod); */
@@ -1258,7 +1258,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
       nbox = 1;
   }
   nb3 = nbox * nbox * nbox;
-  printf("# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
+  fprintf(stderr, "# Using %dx%dx%d boxes\n", nbox, nbox, nbox);
 
   // Allocate memory
   Fx = allocate_d_vec(nnod);
@@ -1368,7 +1368,7 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
     }
 
     // Screen output
-    printf("%d %g\n", i, T/(double)nnod);
+    fprintf(stderr, "%d %g\n", i, T/(double)nnod);
 /*     printf("%d %g %g %g\n", i, T/(double)nnod, */
 /* 	   U/(double)nnod, */
 /* 	   (T+U)/(double)nnod); */
-- 
2.43.0


From 8769368ff5523875ea65e54571ba4f304494a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 58/70] fix: a node could be put outside all boxes when a
 layout had become flat

---
 src/layout.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/layout.c b/src/layout.c
index 126a4b1..bea2352 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -344,6 +344,12 @@ int AssignBox(struct node_gra *node, int nbox,
   intx = floor(normx * (double)nbox);
   inty = floor(normy * (double)nbox);
 
+  // When the system has almost no extent, rounding undoes the margins
+  if (intx >= nbox)
+    intx = nbox - 1;
+  if (inty >= nbox)
+    inty = nbox - 1;
+
   return inty * nbox + intx;
 }
 
@@ -768,6 +774,14 @@ int AssignBox3D(struct node_gra *node, int nbox,
   inty = floor(normy * (double)nbox);
   intz = floor(normz * (double)nbox);
 
+  // When the system has almost no extent, rounding undoes the margins
+  if (intx >= nbox)
+    intx = nbox - 1;
+  if (inty >= nbox)
+    inty = nbox - 1;
+  if (intz >= nbox)
+    intz = nbox - 1;
+
   return intz * nbox * nbox + inty * nbox + intx;
 }
 
-- 
2.43.0


From 81957029ab342d5a78c48f6cb58c709bc96ce75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:52 +0000
Subject: [PATCH 59/70] fix: the 2D layout that starts in 3D blew up when it
 took long to settle

---
 src/layout.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layout.c b/src/layout.c
index bea2352..b25e8ec 100644
--- a/src/layout.c
+++ b/src/layout.c
@@ -1388,8 +1388,9 @@ MDGraphLayout2Dp(struct node_gra *net, double drag, double dt,
 /* 	   (T+U)/(double)nnod); */
 /*     printf("%d\n", i); */
 
-    // Increase the spring in the z direction
-    if ( kz_sw > 0 ) {
+    // Increase the spring in the z direction, but not so much that the
+    // integration becomes unstable
+    if ( kz_sw > 0 && kz * dt * dt < 1. ) {
       kz += dt;
     }
 
-- 
2.43.0


From 7bd25146566eaced937058a16b91f810b511dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 60/70] fix: network scores and sampled partitions leaked the
 table of log-factorials

---
 src/missing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 74bc31e..8a57a5a 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1036,6 +1036,7 @@ NetworkScore(struct node_gra *netTar,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return scoreTar / scoreObs;
 }
@@ -1288,6 +1289,7 @@ PartitionSampling(struct node_gra *net,
   free_i_mat(G2G, nnod);
   free_i_vec(n2gList);
   FreeFastLogChoose(LogChooseList, LogChooseListSize);
+  FreeFastLogFact(LogFactList);
   
   return partList;
 }
-- 
2.43.0


From 90dbd8045785e7cdf4867c43ee742635d0f3988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 61/70] fix: reconstruction of a complete or empty network
 exchanged links it had not chosen, and leaked

---
 src/missing.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/missing.c b/src/missing.c
index 8a57a5a..6ff1479 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1085,6 +1085,7 @@ NetReconstruct(struct node_gra *netObs,
 	 score */
       maxLinkScore = 0.0;
       minLinkScore = 1.0;
+      n1Add = n2Add = n1Remove = n2Remove = NULL;
       for (n1=0; n1<nnod; n1++) {
 	for (n2=n1+1; n2<nnod; n2++) {
 	  if ((linkScores[n1][n2] > maxLinkScore) &&
@@ -1102,6 +1103,10 @@ NetReconstruct(struct node_gra *netObs,
 	}
       }
 
+      /* Nothing to exchange if the network is complete or empty */
+      if ((n1Add == NULL) || (n1Remove == NULL))
+	break;
+
       /* Add and remove links */
       AddAdjacency(n1Add, n2Add, 0, 0, 1.0, 2);
       AddAdjacency(n2Add, n1Add, 0, 0, 1.0, 2);
@@ -1124,8 +1129,10 @@ NetReconstruct(struct node_gra *netObs,
 	RemoveLink(n1Add, n2Add, 1);
       }
     } while(someRejected < thresReject);
+    free_d_mat(linkScores, nnod);
   } while (someChanged == 1);
 
+  free(nlist);
   return net;
 }
 
-- 
2.43.0


From 81c3ada3a626e4c8c41910363a60b9d4e891efdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 62/70] fix: programs crashed when a file could not be opened
 or read, or was no network, and on a missing argument

---
 conflict/main_conflict.c                      |  8 +++---
 multiblock/main_reliability_links_mb.c        |  9 +++----
 multiblock/main_reliability_links_mb_OR.c     |  9 +++----
 multiblock/main_reliability_links_mb_gibbs.c  | 11 +++-----
 .../main_reliability_links_mb_gibbs_OR.c      | 11 +++-----
 netcarto/main_netcarto_legacy.c               | 12 ++++-----
 only_deg/main_only_degeneration_mb.c          | 11 +++-----
 only_deg/main_only_degeneration_mb_gibbs.c    | 11 +++-----
 recommender/main_multi_recommend_2.c          |  8 +++---
 recommender/main_multi_recommend_k.c          |  8 +++---
 recommender/main_multi_recommend_k_gibbs.c    |  8 +++---
 reliability/main_reliability_links.c          | 11 +++-----
 reliability/main_reliability_links_gibbs.c    |  7 ++---
 .../main_reliability_links_gibbs_sparse.c     |  9 +++----
 reliability/main_reliability_links_k.c        | 11 +++-----
 reliability/main_reliability_reconstruct.c    |  8 +++---
 src/bipartite.c                               | 22 +++++++++++++++-
 src/bipartite.h                               |  3 +++
 src/graph.c                                   | 25 +++++++++++++++++-
 src/graph.h                                   |  5 ++++
 src/missing.c                                 |  4 +--
 src/modules.c                                 | 26 ++++++++++++++++---
 src/modules.h                                 |  1 +
 src/recommend.c                               | 18 ++++++-------
 src/tools.c                                   | 19 +++++++++++++-
 src/tools.h                                   |  3 +++
 utils/main_bipartitemodularity.c              | 14 +++++-----
 utils/main_bipartitemodularity_w.c            | 14 +++++-----
 utils/main_countlinks.c                       |  5 +---
 utils/main_getgiant.c                         |  5 +---
 utils/main_lapspec.c                          |  5 +---
 utils/main_modularbipart.c                    |  4 +++
 utils/main_multinetlayout.c                   |  5 +---
 utils/main_mutualinfo.c                       | 14 +++++-----
 utils/main_netcompare.c                       |  9 ++-----
 utils/main_netlayout.c                        |  5 +---
 utils/main_netprop.c                          |  5 +---
 utils/main_netrandomize.c                     |  5 +---
 utils/main_nodeprop.c                         |  5 +---
 39 files changed, 199 insertions(+), 174 deletions(-)

diff --git a/conflict/main_conflict.c b/conflict/main_conflict.c
index a53100f..9925e5b 100644
--- a/conflict/main_conflict.c
+++ b/conflict/main_conflict.c
@@ -23,7 +23,7 @@ int
 main(int argc, char **argv)
 {
   char *obsFile, *queFile;
-  FILE *infile=NULL, *outfile=NULL;
+  FILE *outfile=NULL;
   struct binet *ratings=NULL;
   gsl_rng *rand_gen;
   int seed;
@@ -41,15 +41,13 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observation network */
-  infile = fopen(obsFile, "r");
-  ratings = ReadRecommenderObservations(infile);
-  fclose(infile);
+  ratings = BuildBipartFromFile(obsFile, 1, 0);
   nquery = CountNodes(ratings->net1) * CountNodes(ratings->net2);
 
   /* Get the scores and print them */
   querySet = AllLinkScore2State(ratings,
 				10000, rand_gen, 'v', -1);
-  outfile = fopen("link_scores.dat", "w");
+  outfile = OpenFile("link_scores.dat", "w");
   for (q=0; q<nquery; q++) {
     if (strcmp(querySet[q]->n1->label, querySet[q]->n2->label) != 0) {
       fprintf(outfile, "%s %s %lf\n",
diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 4df38e4..0803825 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfileAND=NULL, *outfileOR=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -30,7 +29,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -44,9 +43,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -62,7 +59,7 @@ main(int argc, char **argv)
   */
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
-  outfileAND = fopen(outFileNameAND, "w");
+  outfileAND = OpenFile(outFileNameAND, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 533564b..6cbd74b 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfileAND=NULL, *outfileOR=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -30,7 +29,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
     return -1;
   }
@@ -44,9 +43,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -62,7 +59,7 @@ main(int argc, char **argv)
   */
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
-  outfileOR = fopen(outFileNameOR, "w");
+  outfileOR = OpenFile(outFileNameOR, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 3480993..c9094a5 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfileAND=NULL, *outfileOR=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -30,9 +29,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,9 +43,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -62,7 +59,7 @@ main(int argc, char **argv)
   */
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
-  outfileAND = fopen(outFileNameAND, "w");
+  outfileAND = OpenFile(outFileNameAND, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index a4ab09d..d4b0436 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfileAND=NULL, *outfileOR=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -30,9 +29,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: reliability_links_mb_OR net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,9 +43,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -62,7 +59,7 @@ main(int argc, char **argv)
   */
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
-  outfileOR = fopen(outFileNameOR, "w");
+  outfileOR = OpenFile(outFileNameOR, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 8e9718e..0af70cc 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -104,9 +104,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  inFile=fopen(netF,"r");
-  net = FBuildNetwork(inFile, 0, 0, 0, 1);
-  fclose(inFile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   S = CountNodes(net);
   fprintf(stderr, "\n# The network has %d nodes\n", S);
@@ -123,7 +121,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
 			  2.0 / (double)S, Tf, Tsched,
 			  iterfac, 0, 'o', 1, 's', rand_gen);
 
-  outFile = fopen("modules.dat", "w");
+  outFile = OpenFile("modules.dat", "w");
   FPrintPartition(outFile, part, 0);
   realmod = Modularity(part);
   fprintf(outFile, "# Modularity = %g\n", realmod);
@@ -137,7 +135,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
     Calculate and print node properties
     ------------------------------------------------------------
   */
-  outFile=fopen("node_prop.dat","w");
+  outFile=OpenFile("node_prop.dat","w");
   p = net;
   while ((p = p->next) != NULL) {
     fprintf(outFile,"%s %d %lf %lf\n",
@@ -155,7 +153,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   fprintf(stderr, "\n# Finding node roles\n");
   roles = CatalogRoleIdent(net, part);
 
-  outFile = fopen("roles.dat","w");
+  outFile = OpenFile("roles.dat","w");
   FPrintPartition(outFile, roles, 0);
   fclose(outFile);
 
@@ -191,7 +189,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   }
   ranmodst = sqrt(ranmodst / (double)rep);
 
-  outFile = fopen("randomized_mod.dat", "w");
+  outFile = OpenFile("randomized_mod.dat", "w");
   fprintf(outFile, "# M\tMrand\tsimga_Mrand\n");
   fprintf(outFile, "%lf %lf %lf\n", realmod, ranmodav, ranmodst);
   fclose(outFile);
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 0eb3bcc..7d0e724 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfile=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -30,9 +29,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,9 +43,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -62,7 +59,7 @@ main(int argc, char **argv)
   */
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
-  outfile = fopen(outFileName, "w");
+  outfile = OpenFile(outFileName, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index 79d49df..eaa6f8e 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfile=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -30,9 +29,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: only_degeneration_mb net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -44,9 +43,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -62,7 +59,7 @@ main(int argc, char **argv)
   */
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
-  outfile = fopen(outFileName, "w");
+  outfile = OpenFile(outFileName, "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index 4c702a7..a79aad3 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -32,7 +32,7 @@ main(int argc, char **argv)
   double *scores;
 
   /* Command line parameters */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: multi_recommend_2.out observation_file query_file seed\n\n");
     return -1;
   }
@@ -43,14 +43,12 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observations */
-  infile = fopen(obsFile, "r");
-  ratings = ReadRecommenderObservations(infile);
-  fclose(infile);
+  ratings = BuildBipartFromFile(obsFile, 1, 0);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
-  infile = fopen(queFile, "r");
+  infile = OpenFile(queFile, "r");
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
 
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index bd5f603..97ccee9 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k.out K observation_file query_file seed\n\n");
     return -1;
   }
@@ -45,14 +45,12 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observations */
-  infile = fopen(obsFile, "r");
-  ratings = ReadRecommenderObservations(infile);
-  fclose(infile);
+  ratings = BuildBipartFromFile(obsFile, 1, 0);
 
   /* Get the number of queries and build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
-  infile = fopen(queFile, "r");
+  infile = OpenFile(queFile, "r");
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
 
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index ab54b04..a673860 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -33,7 +33,7 @@ main(int argc, char **argv)
   int K, k;
 
   /* Command line parameters */
-  if (argc < 4) {
+  if (argc < 5) {
     printf("\nUse: multi_recommend_k_gibbs K observation_file query_file seed\n\n");
     return -1;
   }
@@ -45,14 +45,12 @@ main(int argc, char **argv)
   gsl_rng_set(rand_gen, seed);
 
   /* Build the observations */
-  infile = fopen(obsFile, "r");
-  ratings = ReadRecommenderObservations(infile);
-  fclose(infile);
+  ratings = BuildBipartFromFile(obsFile, 1, 0);
 
   /* Get the number of queries end build the query set */
   nquery = CountLinesInFile(queFile);
   fprintf(stderr, ">> %d queries\n", nquery);
-  infile = fopen(queFile, "r");
+  infile = OpenFile(queFile, "r");
   queries = ReadQueries(infile, nquery, ratings);
   fclose(infile);
 
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 547ddbe..5e20386 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -18,7 +18,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfile1=NULL, *outfile2=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -31,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -45,9 +44,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -61,8 +58,8 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  outfile1 = fopen("missing.dat", "w");
-  outfile2 = fopen("spurious.dat", "w");
+  outfile1 = OpenFile("missing.dat", "w");
+  outfile2 = OpenFile("spurious.dat", "w");
   p1 = net;
   while ((p1 = p1->next) != NULL) {
     p2 = p1;
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 64eef2c..11957ba 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -18,7 +18,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfile1=NULL, *outfile2=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -31,7 +30,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
     return -1;
   }
@@ -45,9 +44,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index e20bf8c..2edb38b 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -18,7 +18,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfile1=NULL, *outfile2=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -31,9 +30,9 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 2) {
+  if (argc < 3) {
     printf("\nUse: links net_file seed\n\n");
-    return;
+    return -1;
   }
   netF = argv[1];
   seed = atoi(argv[2]);
@@ -45,9 +44,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7b6c31d..7eb0240 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -18,7 +18,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   FILE *outfile1=NULL, *outfile2=NULL;
   struct node_gra *net=NULL;
   gsl_rng *rand_gen;
@@ -34,7 +33,7 @@ main(int argc, char **argv)
     Command line parameters
     ---------------------------------------------------------------------------
   */
-  if (argc < 3) {
+  if (argc < 4) {
     printf("\nUse: reliability_links_k K net_file seed\n\n");
     return -1;
   }
@@ -49,9 +48,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 1, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 1, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
@@ -66,8 +63,8 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
-  outfile1 = fopen("unobserved_k.dat", "w");
-  outfile2 = fopen("observed_k.dat", "w");
+  outfile1 = OpenFile("unobserved_k.dat", "w");
+  outfile2 = OpenFile("observed_k.dat", "w");
   for (q=0; q<nquery; q++) {
     if (IsThereLink(queries[q]->n1, queries[q]->n2) == 0) {
       fprintf(outfile1, "%s %s",
diff --git a/reliability/main_reliability_reconstruct.c b/reliability/main_reliability_reconstruct.c
index b56ddf4..6cddc07 100644
--- a/reliability/main_reliability_reconstruct.c
+++ b/reliability/main_reliability_reconstruct.c
@@ -23,7 +23,7 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL, *outfile=NULL;
+  FILE *outfile=NULL;
   struct node_gra *net=NULL, *netRec=NULL;
   gsl_rng *rand_gen;
   int seed;
@@ -37,9 +37,7 @@ main(int argc, char **argv)
   seed = atoi(argv[2]);
 
   /* Build the network */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /* Reconstruct the network */
   rand_gen = gsl_rng_alloc(gsl_rng_mt19937);
@@ -47,7 +45,7 @@ main(int argc, char **argv)
   netRec = NetReconstruct(net, rand_gen);
 
   /* Print the reconstruction */
-  outfile = fopen("net_reconstructed.dat", "w");
+  outfile = OpenFile("net_reconstructed.dat", "w");
   FPrintNetAdjacencyList(outfile, netRec, 0, 1);
   fclose(outfile);
 
diff --git a/src/bipartite.c b/src/bipartite.c
index bf35ebe..8bed4e1 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -143,6 +143,26 @@ FBuildNetworkBipart(FILE *inFile,
   return NULL;
 }
 
+/*
+  ---------------------------------------------------------------------
+  Build a bipartite network from the file with the given name. If there
+  is no network in it, say so and finish the program.
+  ---------------------------------------------------------------------
+*/
+struct binet *
+BuildBipartFromFile(char *fileName, int weight_sw, int add_weight_sw)
+{
+  FILE *inFile = OpenFile(fileName, "r");
+  struct binet *net = FBuildNetworkBipart(inFile, weight_sw, add_weight_sw);
+
+  fclose(inFile);
+  if (net == NULL) {
+    fprintf(stderr, "%s: not a bipartite network\n", fileName);
+    exit(EXIT_FAILURE);
+  }
+  return net;
+}
+
 /*
   ---------------------------------------------------------------------
   Build a modular bipartine network.
@@ -795,7 +815,7 @@ FPrintPajekFileBipart (char *fname,
   S2 = CountNodes(binet->net2);
   Stot  = S1 + S2;
 
-  outF = fopen(fname, "w");
+  outF = OpenFile(fname, "w");
 
   fprintf(outF, "*Vertices %d %d\n", Stot, S1);
 
diff --git a/src/bipartite.h b/src/bipartite.h
index d63b252..644330a 100644
--- a/src/bipartite.h
+++ b/src/bipartite.h
@@ -40,6 +40,9 @@ struct binet *BuildModularBipartiteNetwork(int *mod_size,
 struct binet *FBuildNetworkBipart(FILE *inFile,
 				  int weight_sw,
 				  int add_weight_sw);
+struct binet *BuildBipartFromFile(char *fileName,
+				  int weight_sw,
+				  int add_weight_sw);
 void RemoveBipart(struct binet *net);
 
 /*
diff --git a/src/graph.c b/src/graph.c
index c88f771..e71d0bd 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -623,6 +623,29 @@ FBuildNetwork(FILE *inFile,
   return NULL;
 }
 
+// ---------------------------------------------------------------------
+// Builds a network from the file with the given name. If there is no
+// network in it, says so and finishes the program.
+// ---------------------------------------------------------------------
+struct node_gra *
+BuildNetworkFromFile(char *fileName,
+		     int weight_sw,
+		     int auto_link_sw,
+		     int add_weight_sw,
+		     int symmetric_sw)
+{
+  FILE *inFile = OpenFile(fileName, "r");
+  struct node_gra *net = FBuildNetwork(inFile, weight_sw, auto_link_sw,
+				       add_weight_sw, symmetric_sw);
+
+  fclose(inFile);
+  if (net == NULL) {
+    fprintf(stderr, "%s: not a network\n", fileName);
+    exit(EXIT_FAILURE);
+  }
+  return net;
+}
+
 
 // ---------------------------------------------------------------------
 // ---------------------------------------------------------------------
@@ -694,7 +717,7 @@ FPrintPajekFile(char *fname,
   struct node_lis *n=NULL;
   FILE *outF;
 
-  outF = fopen(fname, "w");
+  outF = OpenFile(fname, "w");
   fprintf(outF, "*Vertices %d\n", CountNodes(root));
 
   /* Print the nodes */
diff --git a/src/graph.h b/src/graph.h
index c923126..50928e5 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -136,6 +136,11 @@ struct node_gra *FBuildNetwork(FILE *inFile,
 			       int auto_link_sw,
 			       int add_weight_sw,
 			       int symmetric_sw);
+struct node_gra *BuildNetworkFromFile(char *fileName,
+				      int weight_sw,
+				      int auto_link_sw,
+				      int add_weight_sw,
+				      int symmetric_sw);
 
 /*
   ---------------------------------------------------------------------
diff --git a/src/missing.c b/src/missing.c
index 6ff1479..9e03ad5 100644
--- a/src/missing.c
+++ b/src/missing.c
@@ -1964,7 +1964,7 @@ LSMultiLinkScoreKState(int K,
       case 'q':
 	break;
       default:
- 	outfile = fopen("scores.tmp", "w");
+ 	outfile = OpenFile("scores.tmp", "w");
 	for (q=0; q<*nquery; q++) {
 	  fprintf(outfile, "%s %s",
 		  (((*querySet)[q])->n1)->label,
@@ -1976,7 +1976,7 @@ LSMultiLinkScoreKState(int K,
 	  fprintf(outfile, "\n");
 	}
 	fclose(outfile);
-	outfile = fopen("part.tmp", "w");
+	outfile = OpenFile("part.tmp", "w");
 	FPrintPartition(outfile, part, 1);
 	fclose(outfile);
 	break;
diff --git a/src/modules.c b/src/modules.c
index 163bd56..a1522c4 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -172,6 +172,26 @@ FCreatePartition(FILE *inF)
   return part;
 }
 
+/*
+  ---------------------------------------------------------------------
+  Create a partition from the file with the given name. If it cannot be
+  read, say so and finish the program.
+  ---------------------------------------------------------------------
+*/
+struct group *
+BuildPartitionFromFile(char *fileName)
+{
+  FILE *inF = OpenFile(fileName, "r");
+  struct group *part = FCreatePartition(inF);
+
+  if (ferror(inF)) {
+    perror(fileName);
+    exit(EXIT_FAILURE);
+  }
+  fclose(inF);
+  return part;
+}
+
 /*
   ---------------------------------------------------------------------
   For an arbitrary network, create a partition with groups of nodes
@@ -1576,7 +1596,7 @@ FPrintPajekPartitionFile(char *fname, struct node_gra *net)
 {
   FILE *outF;
 
-  outF = fopen(fname, "w");
+  outF = OpenFile(fname, "w");
   fprintf(outF, "*Vertices %d\n", CountNodes(net));
 
   while ((net = net->next) != NULL) {
@@ -2618,11 +2638,11 @@ SACommunityIdent(struct node_gra *net,
     /* Save the partition to a file if necessary */
     switch (output_sw) {
     case 'b':
-      outf = fopen("part.tmp", "w");
+      outf = OpenFile("part.tmp", "w");
       FPrintPartition(outf, best_part, 1);
       fclose(outf);
     case 's':
-      outf = fopen("part.tmp", "w");
+      outf = OpenFile("part.tmp", "w");
       FPrintPartition(outf, best_part, 1);
       fclose(outf);
     default:
diff --git a/src/modules.h b/src/modules.h
index ed30750..0807f49 100644
--- a/src/modules.h
+++ b/src/modules.h
@@ -49,6 +49,7 @@ struct group *CreateGroup(struct group *part, int label);
   ---------------------------------------------------------------------
 */
 struct group *FCreatePartition(FILE *inF);
+struct group *BuildPartitionFromFile(char *fileName);
 struct group *CreateEquiNPartition(struct node_gra *net, int gsize);
 struct group *CreateEquiNPartitionSoft(int ngroups, int gsize);
 struct group *CreatePartitionFromInGroup(struct node_gra *net);
diff --git a/src/recommend.c b/src/recommend.c
index ac57d65..4609bc2 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -1005,7 +1005,7 @@ MultiLinkScore2State(struct binet *ratings,
       case 'q':
 	break;
       default:
- 	outfile = fopen("scores.tmp", "w");
+ 	outfile = OpenFile("scores.tmp", "w");
 	for (q=0; q<nquery; q++) {
 	  fprintf(outfile, "%s %s %lf\n",
 		  ((querySet[q])->n1)->label,
@@ -1013,10 +1013,10 @@ MultiLinkScore2State(struct binet *ratings,
 		  score[q]/(double)norm);
 	}
 	fclose(outfile);
-	outfile = fopen("part1.tmp", "w");
+	outfile = OpenFile("part1.tmp", "w");
 	FPrintPartition(outfile, part1, 1);
 	fclose(outfile);
-	outfile = fopen("part2.tmp", "w");
+	outfile = OpenFile("part2.tmp", "w");
 	FPrintPartition(outfile, part2, 1);
 	fclose(outfile);
 	break;
@@ -1831,7 +1831,7 @@ MultiLinkScoreKState(int K,
       case 'q':
 	break;
       default:
- 	outfile = fopen("scores.tmp", "w");
+ 	outfile = OpenFile("scores.tmp", "w");
 	for (q=0; q<nquery; q++) {
 	  fprintf(outfile, "%s %s",
 		  ((querySet[q])->n1)->label,
@@ -1843,10 +1843,10 @@ MultiLinkScoreKState(int K,
 	  fprintf(outfile, "\n");
 	}
 	fclose(outfile);
-	outfile = fopen("part1.tmp", "w");
+	outfile = OpenFile("part1.tmp", "w");
 	FPrintPartition(outfile, part1, 1);
 	fclose(outfile);
-	outfile = fopen("part2.tmp", "w");
+	outfile = OpenFile("part2.tmp", "w");
 	FPrintPartition(outfile, part2, 1);
 	fclose(outfile);
 	break;
@@ -2485,7 +2485,7 @@ GibbsMultiLinkScoreKState(int K,
       case 'q':
   	break;
       default:
-  	outfile = fopen("scores.tmp", "w");
+  	outfile = OpenFile("scores.tmp", "w");
   	for (q=0; q<nquery; q++) {
   	  fprintf(outfile, "%s %s",
   		  ((querySet[q])->n1)->label,
@@ -2497,10 +2497,10 @@ GibbsMultiLinkScoreKState(int K,
   	  fprintf(outfile, "\n");
   	}
   	fclose(outfile);
-  	outfile = fopen("part1.tmp", "w");
+  	outfile = OpenFile("part1.tmp", "w");
   	FPrintPartition(outfile, part1, 1);
   	fclose(outfile);
-  	outfile = fopen("part2.tmp", "w");
+  	outfile = OpenFile("part2.tmp", "w");
   	FPrintPartition(outfile, part2, 1);
   	fclose(outfile);
   	break;
diff --git a/src/tools.c b/src/tools.c
index fa06e19..7e49b99 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -600,6 +600,23 @@ FreeHarmonicList(double *HarmonicList)
   -----------------------------------------------------------------------------
   -----------------------------------------------------------------------------
 */
+/*
+  -----------------------------------------------------------------------------
+  Open a file. If it cannot be opened, say so and finish the program.
+  -----------------------------------------------------------------------------
+*/
+FILE *
+OpenFile(const char *fileName, const char *mode)
+{
+  FILE *file = fopen(fileName, mode);
+
+  if (file == NULL) {
+    perror(fileName);
+    exit(EXIT_FAILURE);
+  }
+  return file;
+}
+
 /*
   -----------------------------------------------------------------------------
   Count the lines in a file
@@ -612,7 +629,7 @@ CountLinesInFile(char *inFileName)
   int n=0, start=1;
   FILE *inFile;
 
-  inFile = fopen(inFileName, "r");
+  inFile = OpenFile(inFileName, "r");
   while (fgets(line, 1000, inFile)) {
     if (start)
       n++;
diff --git a/src/tools.h b/src/tools.h
index 4ae61d6..27f7ca1 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -7,6 +7,8 @@
 #ifndef RGRAPH_TOOLS_H
 #define RGRAPH_TOOLS_H 1
 
+#include <stdio.h>
+
 #include <gsl/gsl_rng.h>
 
 /*
@@ -77,6 +79,7 @@ void FreeHarmonicList(double *HarmonicList);
   File operations
   ---------------------------------------------------------------------
 */
+FILE *OpenFile(const char *fileName, const char *mode);
 int CountLinesInFile(char *inFileName);
 
 #endif /* !RGRAPH_TOOLS_H */
diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 902a04c..955b235 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -10,25 +10,25 @@
 
 int main(int argc,char* argv[])
 {
-  FILE *inf = NULL;
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
     ------------------------------------------------------------
   */
   //fprintf(stderr, "Creating the network...");
-  inf = fopen(argv[1], "r");
-  binet = FBuildNetworkBipart(inf, 0, 0);
-  fclose(inf);
+  binet = BuildBipartFromFile(argv[1], 0, 0);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
-  inf = fopen(argv[2], "r");
-  part = FCreatePartition(inf);
-  fclose(inf);
+  part = BuildPartitionFromFile(argv[2]);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Inverting the network...");
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index c914b31..5355bec 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -10,25 +10,25 @@
 
 int main(int argc,char* argv[])
 {
-  FILE *inf = NULL;
   struct binet *binet = NULL;
   struct group *part = NULL;
 
+  if (argc < 4) {
+    printf("\nUse: bipartitemodularity_w net_file partition_file invert(0/1)\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
     ------------------------------------------------------------
   */
   //fprintf(stderr, "Creating the network...");
-  inf = fopen(argv[1], "r");
-  binet = FBuildNetworkBipart(inf, 1, 0);
-  fclose(inf);
+  binet = BuildBipartFromFile(argv[1], 1, 0);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Creating the partition...");
-  inf = fopen(argv[2], "r");
-  part = FCreatePartition(inf);
-  fclose(inf);
+  part = BuildPartitionFromFile(argv[2]);
   //fprintf(stderr, "done.\n");
 
   //fprintf(stderr, "Inverting the network...");
diff --git a/utils/main_countlinks.c b/utils/main_countlinks.c
index 40e54ef..df1e7d5 100644
--- a/utils/main_countlinks.c
+++ b/utils/main_countlinks.c
@@ -14,7 +14,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   struct node_gra *net=NULL;
   int N, L;
 
@@ -34,9 +33,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/utils/main_getgiant.c b/utils/main_getgiant.c
index b454f0a..b0f53f2 100644
--- a/utils/main_getgiant.c
+++ b/utils/main_getgiant.c
@@ -9,7 +9,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   struct node_gra *net=NULL, *giant=NULL;
 
   /* Command line parameters */
@@ -20,9 +19,7 @@ main(int argc, char **argv)
   netF = argv[1];
 
   /* Build the network */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /* Get the giant component and print it */
   giant = GetLargestWeaklyConnectedSet(net, 10000000);
diff --git a/utils/main_lapspec.c b/utils/main_lapspec.c
index 274be38..7fee9eb 100644
--- a/utils/main_lapspec.c
+++ b/utils/main_lapspec.c
@@ -11,7 +11,6 @@
 int
 main(int argc, char **argv)
 {
-  FILE *infile=NULL;
   struct node_gra *net=NULL;
   gsl_vector *spec;
   int i, nnod;
@@ -25,9 +24,7 @@ main(int argc, char **argv)
   netF = argv[1];
 
   /* Build the network */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
   nnod = CountNodes(net);
 
   /* Calculate the spectrum of the Laplacian */
diff --git a/utils/main_modularbipart.c b/utils/main_modularbipart.c
index b50a7c0..4cc1ff6 100644
--- a/utils/main_modularbipart.c
+++ b/utils/main_modularbipart.c
@@ -22,6 +22,10 @@ main(int argc, char **argv)
   double teamHomog;
 
   /* Command line parameters */
+  if (argc < 7) {
+    printf("\nUse: modularbipart nmod modsize nteam teamsize homogeneity seed\n\n");
+    return -1;
+  }
   nMod = atoi(argv[1]);
   modSize = atoi(argv[2]);
   nTeam = atoi(argv[3]);
diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index 63fdae0..a568998 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -11,7 +11,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *inFile;
   int i, nnet = argc - 1;
   struct node_gra *net[nnet];
   struct node_gra *net_sum = NULL, *new_net_sum = NULL;
@@ -42,9 +41,7 @@ main(int argc, char **argv)
   */
   for (i=0; i<nnet; i++) {
     netF = argv[i+1];
-    inFile = fopen(netF, "r");
-    net[i] = FBuildNetwork(inFile, 0, 0, 0, 1);
-    fclose(inFile);
+    net[i] = BuildNetworkFromFile(netF, 0, 0, 0, 1);
   }
 
   /*
diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index ed59c9d..1f608d1 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -9,24 +9,24 @@
 
 int main(int argc,char* argv[])
 {
-  FILE *inf = NULL;
   struct group *part1 = NULL;
   struct group *part2 = NULL;
 
+  if (argc < 3) {
+    printf("\nUse: mutualinfo partition_file_1 partition_file_2\n\n");
+    return -1;
+  }
+
   /*
     ------------------------------------------------------------
     Build the network and the partition
     ------------------------------------------------------------
   */
   //fprintf(stderr, "Creating the partition...\n");
-  inf = fopen(argv[1], "r");
-  part1 = FCreatePartition(inf);
-  fclose(inf);
+  part1 = BuildPartitionFromFile(argv[1]);
 
   //fprintf(stderr, "Creating the partition...\n");
-  inf = fopen(argv[2], "r");
-  part2 = FCreatePartition(inf);
-  fclose(inf);
+  part2 = BuildPartitionFromFile(argv[2]);
 
   /*
     ------------------------------------------------------------
diff --git a/utils/main_netcompare.c b/utils/main_netcompare.c
index 04b9bd0..502cf26 100644
--- a/utils/main_netcompare.c
+++ b/utils/main_netcompare.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netFA, *netFB;
-  FILE *inFile;
   struct node_gra *netA=NULL, *netB=NULL;
   int SA, SB, SAB;
   double p_nAB, p_nBA;
@@ -40,13 +39,9 @@ main(int argc, char **argv)
     Build the networks
     ---------------------------------------------------------------------------
   */
-  inFile = fopen(netFA, "r");
-  netA = FBuildNetwork(inFile, 0, 0, 0, 1);
-  fclose(inFile);
+  netA = BuildNetworkFromFile(netFA, 0, 0, 0, 1);
 
-  inFile = fopen(netFB, "r");
-  netB = FBuildNetwork(inFile, 0, 0, 0, 1);
-  fclose(inFile);
+  netB = BuildNetworkFromFile(netFB, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/utils/main_netlayout.c b/utils/main_netlayout.c
index 175cc1a..eba5336 100644
--- a/utils/main_netlayout.c
+++ b/utils/main_netlayout.c
@@ -13,7 +13,6 @@ main(int argc, char **argv)
   long seed;
   char *netF;
   int method;
-  FILE *inFile;
   struct node_gra *net = NULL;
   gsl_rng *rand_gen;
   int S, L;
@@ -54,9 +53,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  inFile=fopen(netF, "r");
-  net = FBuildNetwork(inFile, 0, 0, 0, 1);
-  fclose(inFile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
   S = CountNodes(net);
   L = TotalNLinks(net, 1);
 
diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 1479434..5d4f750 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -13,7 +13,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   struct node_gra *net=NULL;
   struct node_gra *components[1000];
   int i,ncomponents,sizeGC=0,sizeothers=0;
@@ -31,9 +30,7 @@ main(int argc, char **argv)
 /*   prng_seed(rand_gen, seed); */
 
   /* Build the network */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     Calculate and print a variety of network properties
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index eee87b7..12d550a 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -16,7 +16,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   gsl_rng *rand_gen;
   struct node_gra *net=NULL;
   int seed;
@@ -40,9 +39,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/utils/main_nodeprop.c b/utils/main_nodeprop.c
index 0c42d9e..f5cac30 100644
--- a/utils/main_nodeprop.c
+++ b/utils/main_nodeprop.c
@@ -14,7 +14,6 @@ int
 main(int argc, char **argv)
 {
   char *netF;
-  FILE *infile=NULL;
   struct node_gra *net=NULL;
   struct node_gra *p=NULL;
 
@@ -34,9 +33,7 @@ main(int argc, char **argv)
     Build the network
     ---------------------------------------------------------------------------
   */
-  infile = fopen(netF, "r");
-  net = FBuildNetwork(infile, 0, 0, 0, 1);
-  fclose(infile);
+  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   /*
     ---------------------------------------------------------------------------
-- 
2.43.0


From 4f2cc017759b00fd70fe6996d2b18c899eb842c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 63/70] fix: programs reported success when their results could
 not be written

---
 conflict/main_conflict.c                      |  2 +-
 multiblock/main_reliability_links_mb.c        |  2 +-
 multiblock/main_reliability_links_mb_OR.c     |  2 +-
 multiblock/main_reliability_links_mb_gibbs.c  |  2 +-
 .../main_reliability_links_mb_gibbs_OR.c      |  2 +-
 netcarto/main_netcarto_legacy.c               |  8 ++++----
 only_deg/main_only_degeneration_mb.c          |  2 +-
 only_deg/main_only_degeneration_mb_gibbs.c    |  2 +-
 recommender/main_multi_recommend_2.c          |  1 +
 recommender/main_multi_recommend_k.c          |  1 +
 recommender/main_multi_recommend_k_gibbs.c    |  1 +
 reliability/main_reliability_links.c          |  4 ++--
 reliability/main_reliability_links_gibbs.c    |  1 +
 .../main_reliability_links_gibbs_sparse.c     |  1 +
 reliability/main_reliability_links_k.c        |  4 ++--
 reliability/main_reliability_reconstruct.c    |  2 +-
 src/bipartite.c                               |  2 +-
 src/graph.c                                   |  2 +-
 src/modules.c                                 |  2 +-
 src/tools.c                                   | 20 +++++++++++++++++++
 src/tools.h                                   |  1 +
 utils/main_bipartitemodularity.c              |  2 ++
 utils/main_bipartitemodularity_w.c            |  2 ++
 utils/main_countlinks.c                       |  2 ++
 utils/main_getgiant.c                         |  1 +
 utils/main_lapspec.c                          |  1 +
 utils/main_multinetlayout.c                   |  1 +
 utils/main_mutualinfo.c                       |  2 ++
 utils/main_netcompare.c                       |  1 +
 utils/main_netlayout.c                        |  1 +
 utils/main_netprop.c                          |  1 +
 utils/main_netrandomize.c                     |  2 ++
 utils/main_nodeprop.c                         |  2 ++
 33 files changed, 63 insertions(+), 19 deletions(-)

diff --git a/conflict/main_conflict.c b/conflict/main_conflict.c
index 9925e5b..7fce3f5 100644
--- a/conflict/main_conflict.c
+++ b/conflict/main_conflict.c
@@ -56,7 +56,7 @@ main(int argc, char **argv)
 	      querySet[q]->score);
     }
   }
-  fclose(outfile);
+  CloseFile(outfile);
 
   /* Finish */
   for (q=0; q<nquery; q++)
diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 0803825..74c9bfd 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -68,7 +68,7 @@ main(int argc, char **argv)
 	      "%g %s %s\n", newA_AND[p1->num][p2->num], p1->label, p2->label);
     }
   }
-  fclose(outfileAND);
+  CloseFile(outfileAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 6cbd74b..553e851 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -68,7 +68,7 @@ main(int argc, char **argv)
 	      "%g %s %s\n", newA_OR[p1->num][p2->num], p1->label, p2->label);
     }
   }
-  fclose(outfileOR);
+  CloseFile(outfileOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index c9094a5..8590071 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -68,7 +68,7 @@ main(int argc, char **argv)
 	      "%g %s %s\n", newA_AND[p1->num][p2->num], p1->label, p2->label);
     }
   }
-  fclose(outfileAND);
+  CloseFile(outfileAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index d4b0436..b90132c 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -68,7 +68,7 @@ main(int argc, char **argv)
 	      "%g %s %s\n", newA_OR[p1->num][p2->num], p1->label, p2->label);
     }
   }
-  fclose(outfileOR);
+  CloseFile(outfileOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 0af70cc..1d43262 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -125,7 +125,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   FPrintPartition(outFile, part, 0);
   realmod = Modularity(part);
   fprintf(outFile, "# Modularity = %g\n", realmod);
-  fclose(outFile);
+  CloseFile(outFile);
 
   FPrintPajekFile("network.net", net, 0, 0, 1);
   FPrintPajekPartitionFile("modules.clu", net);
@@ -143,7 +143,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
 	    ParticipationCoefficient(p),
 	    WithinModuleRelativeDegree(p, part));
   }
-  fclose(outFile);
+  CloseFile(outFile);
 
   /*
     ------------------------------------------------------------
@@ -155,7 +155,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
 
   outFile = OpenFile("roles.dat","w");
   FPrintPartition(outFile, roles, 0);
-  fclose(outFile);
+  CloseFile(outFile);
 
   MapPartToNet(roles, net);
   FPrintPajekPartitionFile("roles.clu", net);
@@ -192,7 +192,7 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   outFile = OpenFile("randomized_mod.dat", "w");
   fprintf(outFile, "# M\tMrand\tsimga_Mrand\n");
   fprintf(outFile, "%lf %lf %lf\n", realmod, ranmodav, ranmodst);
-  fclose(outFile);
+  CloseFile(outFile);
 
   /*
     ------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 7d0e724..03fb658 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -68,7 +68,7 @@ main(int argc, char **argv)
 	      "%g %s %s\n", newA[p1->num][p2->num], p1->label, p2->label);
     }
   }
-  fclose(outfile);
+  CloseFile(outfile);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index eaa6f8e..b01c58d 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -68,7 +68,7 @@ main(int argc, char **argv)
 	      "%g %s %s\n", newA[p1->num][p2->num], p1->label, p2->label);
     }
   }
-  fclose(outfile);
+  CloseFile(outfile);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/recommender/main_multi_recommend_2.c b/recommender/main_multi_recommend_2.c
index a79aad3..82c6ea9 100644
--- a/recommender/main_multi_recommend_2.c
+++ b/recommender/main_multi_recommend_2.c
@@ -70,5 +70,6 @@ main(int argc, char **argv)
   /* NEED TO FREE THE WHOLE QUERYSET!! */
 /*   FreeQuery(the_query); */
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/recommender/main_multi_recommend_k.c b/recommender/main_multi_recommend_k.c
index 97ccee9..821200f 100644
--- a/recommender/main_multi_recommend_k.c
+++ b/recommender/main_multi_recommend_k.c
@@ -73,5 +73,6 @@ main(int argc, char **argv)
   /* NEED TO FREE THE WHOLE QUERYSET!! */
 /*   FreeQuery(the_query); */
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/recommender/main_multi_recommend_k_gibbs.c b/recommender/main_multi_recommend_k_gibbs.c
index a673860..26d8758 100644
--- a/recommender/main_multi_recommend_k_gibbs.c
+++ b/recommender/main_multi_recommend_k_gibbs.c
@@ -73,5 +73,6 @@ main(int argc, char **argv)
   /* NEED TO FREE THE WHOLE QUERYSET!! */
 /*   FreeQuery(the_query); */
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/reliability/main_reliability_links.c b/reliability/main_reliability_links.c
index 5e20386..5798d1a 100644
--- a/reliability/main_reliability_links.c
+++ b/reliability/main_reliability_links.c
@@ -74,8 +74,8 @@ main(int argc, char **argv)
       }
     }
   }
-  fclose(outfile1);
-  fclose(outfile2);
+  CloseFile(outfile1);
+  CloseFile(outfile2);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_links_gibbs.c b/reliability/main_reliability_links_gibbs.c
index 11957ba..56c893a 100644
--- a/reliability/main_reliability_links_gibbs.c
+++ b/reliability/main_reliability_links_gibbs.c
@@ -93,5 +93,6 @@ main(int argc, char **argv)
   */
   RemoveGraph(net);
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/reliability/main_reliability_links_gibbs_sparse.c b/reliability/main_reliability_links_gibbs_sparse.c
index 2edb38b..09b2b90 100644
--- a/reliability/main_reliability_links_gibbs_sparse.c
+++ b/reliability/main_reliability_links_gibbs_sparse.c
@@ -93,5 +93,6 @@ main(int argc, char **argv)
   */
   RemoveGraph(net);
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/reliability/main_reliability_links_k.c b/reliability/main_reliability_links_k.c
index 7eb0240..696bd70 100644
--- a/reliability/main_reliability_links_k.c
+++ b/reliability/main_reliability_links_k.c
@@ -83,8 +83,8 @@ main(int argc, char **argv)
       fprintf(outfile2, "\n");
     }
   }
-  fclose(outfile1);
-  fclose(outfile2);
+  CloseFile(outfile1);
+  CloseFile(outfile2);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/reliability/main_reliability_reconstruct.c b/reliability/main_reliability_reconstruct.c
index 6cddc07..07b2aba 100644
--- a/reliability/main_reliability_reconstruct.c
+++ b/reliability/main_reliability_reconstruct.c
@@ -47,7 +47,7 @@ main(int argc, char **argv)
   /* Print the reconstruction */
   outfile = OpenFile("net_reconstructed.dat", "w");
   FPrintNetAdjacencyList(outfile, netRec, 0, 1);
-  fclose(outfile);
+  CloseFile(outfile);
 
   /* Finish */
   RemoveGraph(net);
diff --git a/src/bipartite.c b/src/bipartite.c
index 8bed4e1..76090dc 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -860,7 +860,7 @@ FPrintPajekFileBipart (char *fname,
   }
 
   /* Done */
-  fclose(outF);
+  CloseFile(outF);
 }
 
 /*
diff --git a/src/graph.c b/src/graph.c
index e71d0bd..babe46f 100644
--- a/src/graph.c
+++ b/src/graph.c
@@ -760,7 +760,7 @@ FPrintPajekFile(char *fname,
   }
 
   /* Close the file and return */
-  fclose(outF);
+  CloseFile(outF);
   return;
 }
 
diff --git a/src/modules.c b/src/modules.c
index a1522c4..c312269 100644
--- a/src/modules.c
+++ b/src/modules.c
@@ -1602,7 +1602,7 @@ FPrintPajekPartitionFile(char *fname, struct node_gra *net)
   while ((net = net->next) != NULL) {
     fprintf(outF, "   %d\n", net->inGroup + 1);
   }
-  fclose(outF);
+  CloseFile(outF);
 
   return;
 }
diff --git a/src/tools.c b/src/tools.c
index 7e49b99..4bd3837 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -617,6 +617,26 @@ OpenFile(const char *fileName, const char *mode)
   return file;
 }
 
+/*
+  -----------------------------------------------------------------------------
+  Close a file that was written (the standard output is only
+  flushed). If not everything could be written, say so and finish the
+  program.
+  -----------------------------------------------------------------------------
+*/
+void
+CloseFile(FILE *file)
+{
+  int error = ferror(file);
+
+  if (file == stdout ? fflush(file) : fclose(file))
+    error = 1;
+  if (error) {
+    perror("Output could not be written");
+    exit(EXIT_FAILURE);
+  }
+}
+
 /*
   -----------------------------------------------------------------------------
   Count the lines in a file
diff --git a/src/tools.h b/src/tools.h
index 27f7ca1..9df5c80 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -80,6 +80,7 @@ void FreeHarmonicList(double *HarmonicList);
   ---------------------------------------------------------------------
 */
 FILE *OpenFile(const char *fileName, const char *mode);
+void CloseFile(FILE *file);
 int CountLinesInFile(char *inFileName);
 
 #endif /* !RGRAPH_TOOLS_H */
diff --git a/utils/main_bipartitemodularity.c b/utils/main_bipartitemodularity.c
index 955b235..41f0a5a 100644
--- a/utils/main_bipartitemodularity.c
+++ b/utils/main_bipartitemodularity.c
@@ -5,6 +5,7 @@
 #include <gsl/gsl_rng.h>
 
 #include "bipartite.h"
+#include "tools.h"
 #include "graph.h"
 #include "modules.h"
 
@@ -61,5 +62,6 @@ int main(int argc,char* argv[])
   RemovePartition(part);
   RemoveBipart(binet);
 
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_bipartitemodularity_w.c b/utils/main_bipartitemodularity_w.c
index 5355bec..624eec2 100644
--- a/utils/main_bipartitemodularity_w.c
+++ b/utils/main_bipartitemodularity_w.c
@@ -5,6 +5,7 @@
 #include <gsl/gsl_rng.h>
 
 #include "bipartite.h"
+#include "tools.h"
 #include "graph.h"
 #include "modules.h"
 
@@ -61,5 +62,6 @@ int main(int argc,char* argv[])
   RemovePartition(part);
   RemoveBipart(binet);
 
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_countlinks.c b/utils/main_countlinks.c
index df1e7d5..f07d768 100644
--- a/utils/main_countlinks.c
+++ b/utils/main_countlinks.c
@@ -8,6 +8,7 @@
 #include <math.h>
 #include <stdlib.h>
 
+#include "tools.h"
 #include "graph.h"
 
 int
@@ -46,5 +47,6 @@ main(int argc, char **argv)
 	 N, L, (double)(2 * L) / (double)N);
 
   RemoveGraph(net);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_getgiant.c b/utils/main_getgiant.c
index b0f53f2..f9b01fb 100644
--- a/utils/main_getgiant.c
+++ b/utils/main_getgiant.c
@@ -28,5 +28,6 @@ main(int argc, char **argv)
   /* Finish */
   RemoveGraph(net);
   RemoveGraph(giant);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_lapspec.c b/utils/main_lapspec.c
index 7fee9eb..a4a0802 100644
--- a/utils/main_lapspec.c
+++ b/utils/main_lapspec.c
@@ -39,5 +39,6 @@ main(int argc, char **argv)
   gsl_vector_free(spec);
 
   /* Done */
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_multinetlayout.c b/utils/main_multinetlayout.c
index a568998..b70f601 100644
--- a/utils/main_multinetlayout.c
+++ b/utils/main_multinetlayout.c
@@ -67,5 +67,6 @@ main(int argc, char **argv)
     RemoveGraph(net[i]);
   RemoveGraph(net_sum);
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_mutualinfo.c b/utils/main_mutualinfo.c
index 1f608d1..c0e15ca 100644
--- a/utils/main_mutualinfo.c
+++ b/utils/main_mutualinfo.c
@@ -4,6 +4,7 @@
 
 #include <gsl/gsl_rng.h>
 
+#include "tools.h"
 #include "graph.h"
 #include "modules.h"
 
@@ -44,5 +45,6 @@ int main(int argc,char* argv[])
   RemovePartition(part1);
   RemovePartition(part2);
 
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_netcompare.c b/utils/main_netcompare.c
index 502cf26..7290dba 100644
--- a/utils/main_netcompare.c
+++ b/utils/main_netcompare.c
@@ -74,5 +74,6 @@ main(int argc, char **argv)
   */
   RemoveGraph(netA);
   RemoveGraph(netB);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_netlayout.c b/utils/main_netlayout.c
index eba5336..7cc300a 100644
--- a/utils/main_netlayout.c
+++ b/utils/main_netlayout.c
@@ -86,5 +86,6 @@ main(int argc, char **argv)
   */
   RemoveGraph(net);
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 5d4f750..7caff22 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -81,5 +81,6 @@ main(int argc, char **argv)
 
   /* Finish */
   RemoveGraph(net);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_netrandomize.c b/utils/main_netrandomize.c
index 12d550a..cf0fa60 100644
--- a/utils/main_netrandomize.c
+++ b/utils/main_netrandomize.c
@@ -10,6 +10,7 @@
 
 #include <gsl/gsl_rng.h>
 
+#include "tools.h"
 #include "graph.h"
 
 int
@@ -56,5 +57,6 @@ main(int argc, char **argv)
   FPrintNetAdjacencyList(stdout, net, 0, 1);
   RemoveGraph(net);
   gsl_rng_free(rand_gen);
+  CloseFile(stdout);
   return 0;
 }
diff --git a/utils/main_nodeprop.c b/utils/main_nodeprop.c
index f5cac30..22473ab 100644
--- a/utils/main_nodeprop.c
+++ b/utils/main_nodeprop.c
@@ -8,6 +8,7 @@
 #include <math.h>
 #include <stdlib.h>
 
+#include "tools.h"
 #include "graph.h"
 
 int
@@ -51,5 +52,6 @@ main(int argc, char **argv)
   while ((p = p->next) != NULL)
     printf("%s %d %g\n", p->label, NodeDegree(p), p->dvar1);
   RemoveGraph(net);
+  CloseFile(stdout);
   return 0;
 }
-- 
2.43.0


From b4bca0d7667acc5e3407b76abfbd543e5d6f785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 64/70] fix: names of score files overflowed their buffers when
 the network file had a long path

---
 multiblock/main_reliability_links_mb.c          | 5 ++++-
 multiblock/main_reliability_links_mb_OR.c       | 5 ++++-
 multiblock/main_reliability_links_mb_gibbs.c    | 5 ++++-
 multiblock/main_reliability_links_mb_gibbs_OR.c | 5 ++++-
 only_deg/main_only_degeneration_mb.c            | 5 ++++-
 only_deg/main_only_degeneration_mb_gibbs.c      | 5 ++++-
 6 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/multiblock/main_reliability_links_mb.c b/multiblock/main_reliability_links_mb.c
index 74c9bfd..8810828 100644
--- a/multiblock/main_reliability_links_mb.c
+++ b/multiblock/main_reliability_links_mb.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -22,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND;
 
   /*
     ---------------------------------------------------------------------------
@@ -57,6 +58,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = OpenFile(outFileNameAND, "w");
@@ -69,6 +71,7 @@ main(int argc, char **argv)
     }
   }
   CloseFile(outfileAND);
+  free(outFileNameAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_OR.c b/multiblock/main_reliability_links_mb_OR.c
index 553e851..3a788ba 100644
--- a/multiblock/main_reliability_links_mb_OR.c
+++ b/multiblock/main_reliability_links_mb_OR.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -22,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR;
 
   /*
     ---------------------------------------------------------------------------
@@ -57,6 +58,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = OpenFile(outFileNameOR, "w");
@@ -69,6 +71,7 @@ main(int argc, char **argv)
     }
   }
   CloseFile(outfileOR);
+  free(outFileNameOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs.c b/multiblock/main_reliability_links_mb_gibbs.c
index 8590071..2f1e29b 100644
--- a/multiblock/main_reliability_links_mb_gibbs.c
+++ b/multiblock/main_reliability_links_mb_gibbs.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -22,7 +23,7 @@ main(int argc, char **argv)
   double **newA_AND;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200], outFileNameAND[200];
+  char *outFileNameAND;
 
   /*
     ---------------------------------------------------------------------------
@@ -57,6 +58,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameAND = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameAND, netF);
   strcat(outFileNameAND, ".AND_scores");
   outfileAND = OpenFile(outFileNameAND, "w");
@@ -69,6 +71,7 @@ main(int argc, char **argv)
     }
   }
   CloseFile(outfileAND);
+  free(outFileNameAND);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/multiblock/main_reliability_links_mb_gibbs_OR.c b/multiblock/main_reliability_links_mb_gibbs_OR.c
index b90132c..4139eaa 100644
--- a/multiblock/main_reliability_links_mb_gibbs_OR.c
+++ b/multiblock/main_reliability_links_mb_gibbs_OR.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -22,7 +23,7 @@ main(int argc, char **argv)
   double **newA_OR;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileNameOR[200];
+  char *outFileNameOR;
 
   /*
     ---------------------------------------------------------------------------
@@ -57,6 +58,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileNameOR = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileNameOR, netF);
   strcat(outFileNameOR, ".OR_scores");
   outfileOR = OpenFile(outFileNameOR, "w");
@@ -69,6 +71,7 @@ main(int argc, char **argv)
     }
   }
   CloseFile(outfileOR);
+  free(outFileNameOR);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb.c b/only_deg/main_only_degeneration_mb.c
index 03fb658..03d5099 100644
--- a/only_deg/main_only_degeneration_mb.c
+++ b/only_deg/main_only_degeneration_mb.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -22,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName;
 
   /*
     ---------------------------------------------------------------------------
@@ -57,6 +58,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = OpenFile(outFileName, "w");
@@ -69,6 +71,7 @@ main(int argc, char **argv)
     }
   }
   CloseFile(outfile);
+  free(outFileName);
 
   /*
     ---------------------------------------------------------------------------
diff --git a/only_deg/main_only_degeneration_mb_gibbs.c b/only_deg/main_only_degeneration_mb_gibbs.c
index b01c58d..e3ff446 100644
--- a/only_deg/main_only_degeneration_mb_gibbs.c
+++ b/only_deg/main_only_degeneration_mb_gibbs.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <math.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <gsl/gsl_rng.h>
 
@@ -22,7 +23,7 @@ main(int argc, char **argv)
   double **newA;
   struct node_gra *p1, *p2;
   long int seed;
-  char outFileName[200];
+  char *outFileName;
 
   /*
     ---------------------------------------------------------------------------
@@ -57,6 +58,7 @@ main(int argc, char **argv)
     Output
     ---------------------------------------------------------------------------
   */
+  outFileName = (char *) malloc(strlen(netF) + 20);
   strcpy(outFileName, netF);
   strcat(outFileName, ".scores");
   outfile = OpenFile(outFileName, "w");
@@ -69,6 +71,7 @@ main(int argc, char **argv)
     }
   }
   CloseFile(outfile);
+  free(outFileName);
 
   /*
     ---------------------------------------------------------------------------
-- 
2.43.0


From 9dae0b26a7ed5c45b2cffcd000227fc0b2f3ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 65/70] fix: queries that could not be read were answered as if
 they repeated the one before

---
 src/recommend.c | 7 +++++--
 src/tools.c     | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/recommend.c b/src/recommend.c
index 4609bc2..af60f0d 100644
--- a/src/recommend.c
+++ b/src/recommend.c
@@ -164,7 +164,6 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
   struct query *q=NULL;
   int nq;
   struct node_gra *n1=NULL, *n2=NULL;
-  int dummy;
 
   /* Create the search dictionaries */
   dict1 = MakeLabelDict(binet->net1);
@@ -175,7 +174,11 @@ ReadQueries(FILE *inFile, int nQueries, struct binet *binet)
 
   /* Go through the file and create the queries */
   for (nq=0; nq<nQueries; nq++) {
-    dummy = fscanf(inFile, "%s %s\n", &node1[0], &node2[0]);
+    if (fscanf(inFile, "%s %s\n", &node1[0], &node2[0]) != 2 ||
+	ferror(inFile)) {
+      fprintf(stderr, "Failed to read query %d\n", nq + 1);
+      exit(EXIT_FAILURE);
+    }
     n1 = GetNodeDict(node1, dict1);
     /* add to binet if absent */
     if (n1 == NULL) {
diff --git a/src/tools.c b/src/tools.c
index 4bd3837..e76c38f 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -655,6 +655,10 @@ CountLinesInFile(char *inFileName)
       n++;
     start = (strchr(line, '\n') != NULL); // long lines come in pieces
   }
+  if (ferror(inFile)) {
+    perror(inFileName);
+    exit(EXIT_FAILURE);
+  }
   fclose(inFile);
 
   return n;
-- 
2.43.0


From 8287e92d16962ec35a4b117915842d487775850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 66/70] fix: netprop overflowed its list of components, and
 kept them all

---
 utils/main_netprop.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/main_netprop.c b/utils/main_netprop.c
index 7caff22..5899675 100644
--- a/utils/main_netprop.c
+++ b/utils/main_netprop.c
@@ -14,7 +14,7 @@ main(int argc, char **argv)
 {
   char *netF;
   struct node_gra *net=NULL;
-  struct node_gra *components[1000];
+  struct node_gra **components;
   int i,ncomponents,sizeGC=0,sizeothers=0;
 /*   struct prng *rand_gen; */
 /*   int seed; */
@@ -36,12 +36,16 @@ main(int argc, char **argv)
     Calculate and print a variety of network properties
   */
   /* Calculate the size of the giant component and the number of components */
+  components = (struct node_gra **) malloc(CountNodes(net) *
+					   sizeof(struct node_gra *));
   ncomponents = GetAllConnectedSets(net,components);
   for(i=0;i<ncomponents;i++)
   {
     if (CountNodes(components[i])>sizeGC) sizeGC = CountNodes(components[i]);
     sizeothers += CountNodes(components[i]);
+    RemoveGraph(components[i]);
   }
+  free(components);
 
   printf("Num_components %d\n", ncomponents);
   printf("Size_GC %d\n", sizeGC);
-- 
2.43.0


From 632c3ee9c2f46057e0cd44fe322f496b8b235158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 67/70] fix: netcarto_legacy crashed when it asked for its
 options, or should read the standard input

---
 netcarto/main_netcarto_legacy.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/netcarto/main_netcarto_legacy.c b/netcarto/main_netcarto_legacy.c
index 1d43262..94a8191 100644
--- a/netcarto/main_netcarto_legacy.c
+++ b/netcarto/main_netcarto_legacy.c
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <unistd.h>
 #include <stdlib.h>
+#include <string.h>
  
 #include <gsl/gsl_rng.h>
 #include "tools.h"
@@ -40,7 +41,7 @@ main(int argc, char **argv)
   double Tsched = 0.995, Tf = 0.0;
   double iterfac = 1.0;
   gsl_rng *rand_gen;
-  char *netF;
+  char *netF = "-", netName[1000];
   /*
     ------------------------------------------------------------
     Prompt for user-defined parameters
@@ -50,10 +51,11 @@ main(int argc, char **argv)
   if (argc == 1) {
 
   printf("\n# Enter random number seed (POSITIVE integer): ");
-  scanf("%d", &seed);
+  scanf("%ld", &seed);
 
   printf("\n# Enter the name of the network file: ");
-  scanf("%s", &netF);
+  scanf("%999s", netName);
+  netF = netName;
 
   printf("\n# Enter iteration factor (recommended 1.0): ");
   scanf("%lf", &iterfac);
@@ -104,7 +106,15 @@ while ((c = getopt(argc, argv, "hf:s:i:c:r:")) != -1)
   */
   fprintf(stderr, "\n# Creating the network\n");
 
-  net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
+  if (strcmp(netF, "-") == 0) {
+    net = FBuildNetwork(stdin, 0, 0, 0, 1);
+    if (net == NULL) {
+      fprintf(stderr, "The standard input is not a network\n");
+      return EXIT_FAILURE;
+    }
+  }
+  else
+    net = BuildNetworkFromFile(netF, 0, 0, 0, 1);
 
   S = CountNodes(net);
   fprintf(stderr, "\n# The network has %d nodes\n", S);
-- 
2.43.0


From 836c4d2f3ddeaeae8285e55b82ee8fbd3c2a2f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 68/70] fix: netcarto reported modularity zero and success when
 it had no memory to build the network

---
 netcarto/main_netcarto.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/netcarto/main_netcarto.c b/netcarto/main_netcarto.c
index c156f2d..2d2732f 100644
--- a/netcarto/main_netcarto.c
+++ b/netcarto/main_netcarto.c
@@ -180,6 +180,10 @@ main(int argc, char **argv)
 		adj = CreateAdjaArray(N,E);
 		err = EdgeListToAdjaArray(nodes1, nodes2,
 															weights, adj, part, 1);
+		if (err) {
+			printf("ERROR: Cannot build the network. \n");
+			return(1);
+		}
 	}else{
 		ProjectBipartEdgeList(nodes1, nodes2, weights, E,
 		                      &part, &adj);
@@ -195,10 +199,14 @@ main(int argc, char **argv)
     Tf = 1e-200;
     nochange_limit = 25;
   	AssignNodesToModules(part,randGen);
-  	GeneralSA(&part, adj, fac,
+  	err = GeneralSA(&part, adj, fac,
   			  Ti, Tf, Ts,
   			  proba_components, nochange_limit,
   			  randGen);
+  	if (err) {
+  		printf("ERROR: Cannot find the modules. \n");
+  		return(1);
+  	}
   	CompressPartition(part);
   }
 
-- 
2.43.0


From 470dcc915f6f26d44e1c2013f218df0e37504387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 69/70] fix: switches of links of bipartite networks were not
 chosen evenly

The second link was drawn again and again for the same first one, so
that switches of links with few possible partners came up more often.
---
 src/bipartite.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bipartite.c b/src/bipartite.c
index 76090dc..c4f4383 100644
--- a/src/bipartite.c
+++ b/src/bipartite.c
@@ -749,11 +749,11 @@ RandomizeBipart(struct binet *binet, double times, gsl_rng *gen)
     
     /* select the two links (four nodes) to swap */
     do {
-      target1 = floor(gsl_rng_uniform(gen) * (double)nlink);
-      n1 = ori[target1];
-      n2 = des[target1];
-
       do {
+	target1 = floor(gsl_rng_uniform(gen) * (double)nlink);
+	n1 = ori[target1];
+	n2 = des[target1];
+
 	target2 = floor(gsl_rng_uniform(gen) * (double)nlink);
 	n3 = ori[target2];
 	n4 = des[target2];
-- 
2.43.0


From 83d52a0b81b547364b76fa0b7ae2e0cabbe357e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:18 +0000
Subject: [PATCH 70/70] fix: netcarto lost its labels, and reported success,
 when an allocation failed while it read the network

---
 src/io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io.c b/src/io.c
index 61a1117..38873e3 100644
--- a/src/io.c
+++ b/src/io.c
@@ -191,6 +191,10 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
       printf("%d > %d, doubling memory for nodes\n",N,Nmax );
       Nmax *= 2;
       labels = realloc(labels, (Nmax+1)*sizeof(char*));
+      if (labels == NULL){
+        printf ("Failed to read input: not enough memory for %d nodes. \n", Nmax);
+        return 1;
+      }
     }
     if(E+1>=Emax){
       printf("%d > %d, doubling memory for edges",E,Emax );
@@ -198,6 +202,10 @@ EdgeListFileInput(FILE *inFile, int weighted, int bipartite, unsigned int **node
       nodes_in = realloc(nodes_in, (Emax+1)*sizeof(unsigned int));
       nodes_out = realloc(nodes_out, (Emax+1)*sizeof(unsigned int));
       weights = realloc(weights, (Emax+1)*sizeof(double));
+      if (nodes_in == NULL || nodes_out == NULL || weights == NULL){
+        printf ("Failed to read input: not enough memory for %d edges. \n", Emax);
+        return 1;
+      }
     }
   }
 
-- 
2.43.0

