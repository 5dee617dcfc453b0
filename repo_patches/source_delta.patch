From e8d4908faf842c8fb8a3e38f168de7ffa8365371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 01/47] fix: keep BY_PRIORITY order when an event schedules
 another for the executing tick

---
 src/repast4py/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..7a24d54 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,11 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # when a tick is interrupted by newly added events, the random events that have not
+        # yet executed have already been merged into prioritized, so separate them out again
+        self.random.extend(evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM)
+        self.prioritized[:] = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
+
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From f3d0cb0eacf462ce90b94cc75fc48aac89ea846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 02/47] fix: schedule_stop updates the runner's next tick so
 that all ranks see the stop event

---
 src/repast4py/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 7a24d54..b2ce29e 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -599,6 +599,7 @@ class SharedScheduleRunner:
             The ScheduledEvent instance that executes the stop event.
         """
         sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
+        self.next_tick = self.schedule.next_tick()
         return sch_evt
 
     def stop(self):
-- 
2.43.0


From 9fd2a2f11c37fbaa744d5949e912442cb3761433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 03/47] fix: restore_schedule does not restore stop events
 unless restore_stop_at is true

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..bb7656c 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -250,7 +250,9 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    evt = IGNORE_EVT
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From a2ad91b1010d8a06997cd25e344b84e4983ddc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 04/47] fix: querying a context for a type that none of its
 agents ever had gives no agents instead of a KeyError

---
 src/repast4py/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..57373a2 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -343,7 +343,7 @@ class SharedContext:
             if agent_type is None:
                 lst = list(self._agent_manager._local_agents.values())
             else:
-                lst = list(self._agents_by_type[agent_type].values())
+                lst = list(self._agents_by_type.get(agent_type, {}).values())
 
             if shuffle:
                 random.default_rng.shuffle(lst)
@@ -355,7 +355,7 @@ class SharedContext:
             if agent_type is None:
                 return self._agent_manager._local_agents.values().__iter__()
             else:
-                return self._agents_by_type[agent_type].values().__iter__()
+                return self._agents_by_type.get(agent_type, {}).values().__iter__()
 
     def agent(self, agent_id) -> Agent:
         """Gets the specified agent from the collection of local
@@ -400,7 +400,7 @@ class SharedContext:
         counts = {}
         if agent_type_ids:
             for i in agent_type_ids:
-                counts[i] = len(self._agents_by_type[i])
+                counts[i] = len(self._agents_by_type.get(i, {}))
         else:
             counts[-1] = len(self._agent_manager._local_agents)
 
-- 
2.43.0


From eee0521e033251d1de89fa0f06fec1a2e79f79ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 05/47] fix: an agent in overlapping buffer regions of the same
 neighbor is added to that neighbor's space once

---
 src/repast4py/space.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/repast4py/space.py b/src/repast4py/space.py
index 6e49581..0dfe76b 100644
--- a/src/repast4py/space.py
+++ b/src/repast4py/space.py
@@ -168,10 +168,16 @@ class SharedGrid(_SharedGrid, SharedProjection):
             create_agent: a callable that takes the agent tuple and returns an Agent
         """
         pt = DiscretePoint(0, 0, 0)
+        received = set()
         for sending_rank, data_list in enumerate(recv_data):
             for data in data_list:
                 agent_data = data[0]
                 pt_data = data[1]
+                # the regions sent to a rank overlap when that rank is a neighbor
+                # in more than one direction
+                if agent_data[0] in received:
+                    continue
+                received.add(agent_data[0])
                 # get will increment ref count if ghost exists
                 agent = agent_manager.get_ghost(agent_data[0])
                 if agent is None:
@@ -399,8 +405,14 @@ class SharedCSpace(_SharedContinuousSpace, SharedProjection):
             create_agent: a callable that takes the agent tuple and returns an Agent
         """
         pt = ContinuousPoint(0, 0, 0)
+        received = set()
         for sending_rank, data_list in enumerate(recv_data):
             for agent_data, pt_data in data_list:
+                # the regions sent to a rank overlap when that rank is a neighbor
+                # in more than one direction
+                if agent_data[0] in received:
+                    continue
+                received.add(agent_data[0])
                 agent = agent_manager.get_ghost(agent_data[0])
                 if agent is None:
                     agent = create_agent(agent_data)
-- 
2.43.0


From 5bb70cd3b7164940cfb2e64024f8b851abfeeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 06/47] fix: moving an agent in a one-dimensional continuous
 space no longer crashes

---
 src/repast4py/cspace.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index cdb1e32..f1ee2e0 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -47,9 +47,8 @@ BaseCSpace<AccessorType, BorderType>::BaseCSpace(const std::string& name, const
     //using Tree2DType = CPSpatialTreeImpl<SpatialTree<Box2D, R4Py_ContinuousPoint, AccessorType>>;
     // using Tree3DType = CPSpatialTreeImpl<SpatialTree<Box3D, R4Py_ContinuousPoint, AccessorType>>;
 
-    if (bounds.num_dims == 1) {
-        // TODO 
-    } else if (bounds.num_dims == 2) {
+    // a 1D space has no spatial tree
+    if (bounds.num_dims == 2) {
         spatial_tree = std::unique_ptr<CPSpatialTree>(new CPSpatialTreeImpl<SpatialTree<Box2D, R4Py_ContinuousPoint,
             AccessorType>>(tree_threshold, bounds, &location_map));
     } else if (bounds.num_dims == 3) {
@@ -66,7 +65,15 @@ template<typename AccessorType, typename BorderType>
 void BaseCSpace<AccessorType, BorderType>::getAgentsWithin(const BoundingBox& bounds, 
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) 
 {
-    spatial_tree->getObjectsWithin(bounds, agents);
+    if (spatial_tree) {
+        spatial_tree->getObjectsWithin(bounds, agents);
+    } else {
+        for (auto& kv : agent_map) {
+            if (kv.second->pt && bounds.contains(kv.second->pt)) {
+                agents->push_back(kv.second->agent);
+            }
+        }
+    }
 }
 
 template<typename AccessorType, typename BorderType>
@@ -77,7 +84,7 @@ bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_Agent* agent) {
 template<typename AccessorType, typename BorderType>
 bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_AgentID* aid) {
     auto iter = agent_map.find(aid);
-    if (iter != agent_map.end() && iter->second->pt) {
+    if (spatial_tree && iter != agent_map.end() && iter->second->pt) {
         spatial_tree->removeItem(iter->second);
     }
     return BaseSpace<R4Py_ContinuousPoint, AccessorType, BorderType>::remove(aid);
@@ -93,17 +100,17 @@ R4Py_ContinuousPoint* BaseCSpace<AccessorType, BorderType>::move(R4Py_Agent* age
         if (!point_equals(iter->second->pt, wpt)) {
             if (accessor.put(agent, location_map, wpt)) {
                 if (iter->second->pt) {
-                    spatial_tree->removeItem(iter->second);
+                    if (spatial_tree) spatial_tree->removeItem(iter->second);
                     // if successful put, and agent is already located 
                     // so need to remove
                     Point<R4Py_ContinuousPoint> ppt;
                     extract_coords(iter->second->pt, ppt);
                     accessor.remove(agent, location_map, ppt);
                     update_point(iter->second->pt, wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }  else {
                     iter->second->pt = create_point(Py_TYPE(pt), wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }
             } else {
                 return nullptr;
-- 
2.43.0


From e038c638fdfafffe50fd6429b2552925157896be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:00 +0000
Subject: [PATCH 07/47] fix: removing an agent or an edge no longer breaks the
 next synchronization

Removing a cross-rank edge that had not been synchronized yet raised a
KeyError, removing an agent left its edges queued for synchronization
(KeyError in the next synchronize), and a removed ghost was removed from
projections it was never added to (NetworkXError).
---
 src/repast4py/context.py |  4 +++-
 src/repast4py/network.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 57373a2..b768a77 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -218,7 +218,9 @@ class SharedContext:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
                 for proj in self.projections.values():
-                    proj.remove(ghost)
+                    # not necessarily in every projection
+                    if ghost in proj:
+                        proj.remove(ghost)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..5dc5f5e 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -216,6 +216,13 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        # the agent's edges must not take part in any following synchronization
+        for edge in list(self._edges(agent)):  # type: ignore
+            edge_key = self._get_edge_key(edge)
+            self.new_edges.pop(edge_key, None)
+            self.ghosted_edges.pop(edge_key, None)
+            self.edges_to_update.discard(edge_key)
+        self.edges_to_remove = {k: v for k, v in self.edges_to_remove.items() if agent.uid not in (k[0].uid, k[1].uid)}
         self.graph.remove_node(agent)
 
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
@@ -256,8 +263,9 @@ class SharedNetwork(SharedProjection, ABC):
             edge_key = self._get_edge_key((u_agent, v_agent))
             # edge key order might be different than remove edge args
             # so need to check in edge key which is the ghost
-            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
+            # an edge that has not been synchronized yet is unknown to the other rank
+            if self.ghosted_edges.pop(edge_key, None) is not None:
+                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
             # if removed before update sync or removed before new edge sync
             # then remove it here
             self.edges_to_update.discard(edge_key)
-- 
2.43.0


From ccdb110ec1df9b1a39fc12bd8b9e9f87a30eb51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 08/47] fix: moving an agent keeps its edges mirrored

The edge between a moved agent and a requested ghost stayed behind on the
old rank, as an edge between two ghosts, and was not created on the
agent's new rank. Ghosts on third ranks kept the old local_rank. The
canonical keys of an undirected edge were not updated for the moved agent,
a requested ghost that is in no edge raised a NetworkXError, and an agent
with several edges was counted once per edge as a ghost.
---
 src/repast4py/network.py | 66 ++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 5dc5f5e..130803a 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -476,6 +476,8 @@ class SharedNetwork(SharedProjection, ABC):
                 # incr 0 because should be already as ghost so
                 # ref_count includes this network
                 v = agent_manager.get_ghost(v_id, incr=0)
+            # the ghost's reference count includes this network, so don't count it again
+            self.graph.add_nodes_from((u, v))
             self.add_edge(u, v, **edge_attr)
 
         self._agent_moved_edges.clear()
@@ -513,13 +515,14 @@ class SharedNetwork(SharedProjection, ABC):
         # to set up ghosting of the moved agent).
         nodes_to_remove = []
         edges_to_remove = []
+        ghosted_back = False
         for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
             other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
+            if other.local_rank != self.rank:
+                # neither end will be local to this rank. The rank of other will ghost
+                # the edge to the destination rank.
                 edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
+                if self.num_edges(other) == 1 and not agent_manager.is_requested(other.uid):
                     # other is only on this rank to to be part of the removed edge
                     # and now the edge is gone so remove as node and ghost
                     nodes_to_remove.append(other)
@@ -530,20 +533,27 @@ class SharedNetwork(SharedProjection, ABC):
                 # moving agent participates in edges with local agents
                 # this should tell destination rank to ghost the moved
                 # agent back to this rank, so the edge remains live
-                if len(moving_agent_data) == 1:
-                    moving_agent_data.append({self.rank: 1})
-                else:
-                    if self.rank in moving_agent_data[1]:
-                        moving_agent_data[1][self.rank] += 1
+                if not ghosted_back:
+                    # counted once for this network, regardless of the number of edges
+                    ghosted_back = True
+                    if len(moving_agent_data) == 1:
+                        moving_agent_data.append({self.rank: 1})
                     else:
-                        moving_agent_data[1][self.rank] = 1
+                        if self.rank in moving_agent_data[1]:
+                            moving_agent_data[1][self.rank] += 1
+                        else:
+                            moving_agent_data[1][self.rank] = 1
 
-                # agent will be ghosted to this rank, so need to add it as a
-                # ghost
-                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
+                    # agent will be ghosted to this rank, so need to add it as a
+                    # ghost
+                    if agent_manager.get_ghost(moving_agent.uid) is None:
+                        agent_manager.add_ghost(dest_rank, moving_agent)
                 self._agent_moved_edges.append((u.uid, v.uid, attr))
 
         for edge in edges_to_remove:
+            edge_key = self._get_edge_key(edge)
+            self.ghosted_edges.pop(edge_key, None)
+            self.edges_to_update.discard(edge_key)
             self.graph.remove_edge(*edge)
             self._remove_edge_key(*edge)
 
@@ -579,15 +589,22 @@ class SharedNetwork(SharedProjection, ABC):
                 # to new edges created with the now local agent, and remove
                 # the old ghost
                 ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
+                if ghost is not None and self.graph.has_node(ghost):
                     agent = agent_manager.get_local(uid)
                     edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
                     for u, v, attr in edge_list:
+                        # the edge is now between local agents, and no longer ghosted
+                        edge_key = self._get_edge_key((u, v))
+                        self.ghosted_edges.pop(edge_key, None)
+                        self.edges_to_update.discard(edge_key)
                         self.graph.remove_edge(u, v)
+                        self._remove_edge_key(u, v)
                         if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
+                            u = agent
                         else:
-                            self.graph.add_edge(u, agent, **attr)
+                            v = agent
+                        self.graph.add_edge(u, v, **attr)
+                        self._add_edge_key(u, v)
                     self.graph.remove_node(ghost)
             else:
                 # check if moved agent is a ghost on this rank,
@@ -599,12 +616,17 @@ class SharedNetwork(SharedProjection, ABC):
                 # during next sync.
                 agent = agent_manager.get_ghost(uid, 0)
                 if agent is not None:
-                    for edge in self._edges(agent): # type: ignore
-                        edge_key = self._get_edge_key(edge)
-                        ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                    agent.local_rank = dest
+                    if self.graph.has_node(agent):
+                        for edge in self._edges(agent): # type: ignore
+                            edge_key = self._get_edge_key(edge)
+                            ge = self.ghosted_edges.get(edge_key, None)
+                            other = edge_key[1] if edge_key[0] is agent else edge_key[0]
+                            if ge is None and other.local_rank == self.rank:
+                                # created by the rank the agent moved from
+                                ge = GhostedEdge(other, agent, self.graph.edges[edge_key])
+                            if ge is not None:
+                                self.new_edges[edge_key] = ge
 
 
 class UndirectedSharedNetwork(SharedNetwork):
-- 
2.43.0


From 092fcf8284df6733e9cfa1b2bf37254ea8bfcf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 09/47] fix: a ghost is refreshed as long as any edge, network
 or request needs it

Removing one of several edges of an agent to the same rank, or an edge of
an agent that is also requested by that rank or in another network, stopped
the refreshing of the ghost there, and could create a second copy of it.
Requesting an agent that already is a ghost was not counted by the agent's
own rank, and an agent removed together with a move raised a KeyError.
---
 src/repast4py/context.py | 20 +++++++++------
 src/repast4py/network.py | 53 +++++++++++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 18 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index b768a77..ae90fab 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -217,6 +217,8 @@ class SharedContext:
         for updates in recv_data:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
+                if ghost is None:
+                    continue
                 for proj in self.projections.values():
                     # not necessarily in every projection
                     if ghost in proj:
@@ -421,13 +423,16 @@ class SharedContext:
             # 1 is the rank to request from
             # 0 is the id of the agent we are requesting
             agent = self._agent_manager.get_ghost(request[0], 0)
-            if agent is None:
+            if agent is None or not self._agent_manager.is_requested(request[0]):
+                # an agent that is already a ghost here is not sent again, but the
+                # other rank needs to count the request
+                req = (request[0], agent is None)
                 lst = requests[request[1]]
                 if lst is None:
-                    requests[request[1]] = [request[0]]
-                else:
-                    requests[request[1]].append(request[0])
-            else:
+                    requests[request[1]] = [req]
+                elif req not in lst:
+                    lst.append(req)
+            if agent is not None:
                 existing_ghosts.append(agent)
                 self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
@@ -457,10 +462,11 @@ class SharedContext:
         requested, ghosts = self._send_requests(requested_agents)
         for rank, requests in enumerate(requested):
             if requests:
-                for requested_id in requests:
+                for requested_id, send_agent in requests:
                     agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
                     # self._agent_manager.add_req_ghosted(requested_id)
-                    sent_agents[rank].append(agent.save())
+                    if send_agent:
+                        sent_agents[rank].append(agent.save())
 
         recv_agents = self.comm.alltoall(sent_agents)
         for rank, agents in enumerate(recv_agents):
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 130803a..57461e2 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -297,6 +297,23 @@ class SharedNetwork(SharedProjection, ABC):
         """
         return self.graph.has_edge(u_agent, v_agent)
 
+    def _has_synced_edge(self, local_agent: Agent, rank: int) -> bool:
+        """Gets whether or not the specified local agent participates in a synchronized edge with
+        an agent that is local to the specified rank.
+
+        Args:
+            local_agent: the local agent
+            rank: the rank of the other agent
+
+        Returns:
+            True if the agent participates in such an edge, otherwise False.
+        """
+        for edge in self._edges(local_agent):  # type: ignore
+            other = edge[1] if edge[0] is local_agent else edge[0]
+            if other.local_rank == rank and self._get_edge_key(edge) not in self.new_edges:
+                return True
+        return False
+
     def _sync_removed(self, agent_manager: AgentManager):
         """Synchronizes the removed edges across processes
 
@@ -304,10 +321,18 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: AgentManager used to manage agent synchronization
         """
         sync_edges = [[] for i in range(self.comm.size)]
+        to_untag = set()
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
+            local = edge[not (ghost_idx)]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
+            # this network counts once for the local agent on the ghost's rank, regardless
+            # of the number of edges to that rank
+            if not self._has_synced_edge(local, ghost.local_rank):
+                to_untag.add((ghost.local_rank, local.uid))
+
+        for rank, uid in to_untag:
+            agent_manager.untag_as_ghosted(rank, uid)
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
@@ -319,9 +344,8 @@ class SharedNetwork(SharedProjection, ABC):
                     u_agent = agent_manager._local_agents[u_id]
                     v_agent = agent_manager._ghost_agents[v_id].agent
                     self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
+                    # if ghost not participating in network and not requested, then remove
+                    if not self._has_edge(v_agent) and not agent_manager.is_requested(v_id):
                         agent_manager.remove_ghost(v_agent)
                         self.graph.remove_node(v_agent)
                 else:
@@ -329,9 +353,8 @@ class SharedNetwork(SharedProjection, ABC):
                     # u_agent is GhostAgent so get agent
                     u_agent = u_agent.agent
                     self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
+                    # if ghost not participating in network and not requested, then remove
+                    if not self._has_edge(u_agent) and not agent_manager.is_requested(u_id):
                         agent_manager.remove_ghost(u_agent)
                         self.graph.remove_node(u_agent)
 
@@ -357,7 +380,7 @@ class SharedNetwork(SharedProjection, ABC):
         """
         sync_agents = [[] for i in range(self.comm.size)]
         sync_edges = [[] for i in range(self.comm.size)]
-        for nodes, ghosted_edge in self.new_edges.items():
+        for nodes, ghosted_edge in list(self.new_edges.items()):
             local_agent = ghosted_edge.local_agent
             ghost_agent = ghosted_edge.ghost_agent
             other_rank = ghost_agent.local_rank
@@ -365,10 +388,12 @@ class SharedNetwork(SharedProjection, ABC):
             # not already ghosted so send agent itself
             if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
                 sync_agents[other_rank].append(local_agent.save())
+            # first edge to that rank in this network
+            if not self._has_synced_edge(local_agent, other_rank):
                 agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
+            del self.new_edges[nodes]
 
             sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
-        self.new_edges.clear()
 
         for edge_key in self.edges_to_update:
             ghosted_edge = self.ghosted_edges[edge_key]
@@ -413,6 +438,10 @@ class SharedNetwork(SharedProjection, ABC):
                     u_agent = u_agent.agent
                     v_agent = agent_manager._local_agents[v_id]
 
+                ghost = u_agent if u_agent.local_rank != self.rank else v_agent
+                if not self.graph.has_node(ghost):
+                    # ghost not part of this network yet, so count it
+                    agent_manager.get_ghost(ghost.uid)
                 self.graph.add_edge(u_agent, v_agent, **edge_attr)
                 self._add_edge_key(u_agent, v_agent)
 
@@ -579,7 +608,9 @@ class SharedNetwork(SharedProjection, ABC):
         stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
         for ghost_rank, ids in enumerate(stop_ghosting_ids):
             for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
+                # may have been removed in the meantime
+                if agent_manager.is_ghosted_to(ghost_rank, id):
+                    agent_manager.untag_as_ghosted(ghost_rank, id)
         self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
 
         for uid, dest in moved_agents:
@@ -620,7 +651,7 @@ class SharedNetwork(SharedProjection, ABC):
                     if self.graph.has_node(agent):
                         for edge in self._edges(agent): # type: ignore
                             edge_key = self._get_edge_key(edge)
-                            ge = self.ghosted_edges.get(edge_key, None)
+                            ge = self.ghosted_edges.pop(edge_key, None)
                             other = edge_key[1] if edge_key[0] is agent else edge_key[0]
                             if ge is None and other.local_rank == self.rank:
                                 # created by the rank the agent moved from
-- 
2.43.0


From 4be22cdb77796626cd9e15db3194f7465696d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 10/47] fix: edges can be updated, removed and cleared on
 either of their ranks

update_edge on the rank that received a cross-rank edge raised a KeyError
in the next synchronization, remove_edge there raised a KeyError, and
clear_edges neither removed the received edges from the other rank nor
dropped queued updates (KeyError). The rank that drops a ghost now tells
the agent's rank, so that an agent is ghosted to exactly the ranks that
have it as a ghost.
---
 src/repast4py/core.py    |  12 +++++
 src/repast4py/network.py | 108 ++++++++++++++++-----------------------
 2 files changed, 55 insertions(+), 65 deletions(-)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..a712c2f 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -235,6 +235,18 @@ class AgentManager:
         if ranks[ghost_rank] == 0:
             del ranks[ghost_rank]
 
+    def delete_ghosted_to(self, ghost_rank: int, agent_id: Tuple):
+        """Stops the ghosting of the specified agent to the specified rank, if
+        it is ghosted there. This is used when that rank no longer has the ghost.
+
+        Args:
+            ghost_rank: the rank that no longer has the ghost
+            agent_id: the id of the agent
+        """
+        gh = self._ghosted_agents.get(agent_id)
+        if gh is not None:
+            gh.ghost_ranks.pop(ghost_rank, None)
+
     def remove_ghost(self, agent: Agent):
         """Decrements the ghost agents reference count and removes it from this rank, if its
         reference count is 0.
diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 57461e2..d5c42d7 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -263,9 +263,8 @@ class SharedNetwork(SharedProjection, ABC):
             edge_key = self._get_edge_key((u_agent, v_agent))
             # edge key order might be different than remove edge args
             # so need to check in edge key which is the ghost
-            # an edge that has not been synchronized yet is unknown to the other rank
-            if self.ghosted_edges.pop(edge_key, None) is not None:
-                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
+            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
+            self.ghosted_edges.pop(edge_key, None)
             # if removed before update sync or removed before new edge sync
             # then remove it here
             self.edges_to_update.discard(edge_key)
@@ -276,12 +275,14 @@ class SharedNetwork(SharedProjection, ABC):
     def clear_edges(self):
         """Removes all the edges.
         """
-        self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
+        for edge in list(self.graph.edges):
             edge_key = self._get_edge_key(edge)
-            self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
+            if (edge_key[0].local_rank == self.rank) != (edge_key[1].local_rank == self.rank):
+                self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
+            self._remove_edge_key(*edge)
 
+        self.graph.clear_edges()
+        self.edges_to_update.clear()
         self.new_edges.clear()
         self.ghosted_edges.clear()
 
@@ -297,23 +298,6 @@ class SharedNetwork(SharedProjection, ABC):
         """
         return self.graph.has_edge(u_agent, v_agent)
 
-    def _has_synced_edge(self, local_agent: Agent, rank: int) -> bool:
-        """Gets whether or not the specified local agent participates in a synchronized edge with
-        an agent that is local to the specified rank.
-
-        Args:
-            local_agent: the local agent
-            rank: the rank of the other agent
-
-        Returns:
-            True if the agent participates in such an edge, otherwise False.
-        """
-        for edge in self._edges(local_agent):  # type: ignore
-            other = edge[1] if edge[0] is local_agent else edge[0]
-            if other.local_rank == rank and self._get_edge_key(edge) not in self.new_edges:
-                return True
-        return False
-
     def _sync_removed(self, agent_manager: AgentManager):
         """Synchronizes the removed edges across processes
 
@@ -321,44 +305,44 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: AgentManager used to manage agent synchronization
         """
         sync_edges = [[] for i in range(self.comm.size)]
-        to_untag = set()
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
-            local = edge[not (ghost_idx)]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            # this network counts once for the local agent on the ghost's rank, regardless
-            # of the number of edges to that rank
-            if not self._has_synced_edge(local, ghost.local_rank):
-                to_untag.add((ghost.local_rank, local.uid))
-
-        for rank, uid in to_untag:
-            agent_manager.untag_as_ghosted(rank, uid)
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
+        no_longer_ghosts = [[] for _ in range(self.comm.size)]
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
-                if u_agent is None:
+                ghost = agent_manager.get_ghost(u_id, incr=0)
+                if ghost is None:
                     # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network and not requested, then remove
-                    if not self._has_edge(v_agent) and not agent_manager.is_requested(v_id):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
+                    u_agent = agent_manager.get_local(u_id)
+                    ghost = v_agent = agent_manager.get_ghost(v_id, incr=0)
                 else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network and not requested, then remove
-                    if not self._has_edge(u_agent) and not agent_manager.is_requested(u_id):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    u_agent = ghost
+                    v_agent = agent_manager.get_local(v_id)
+
+                if not self.graph.has_edge(u_agent, v_agent):
+                    # removed before it was synchronized, or removed on this rank too
+                    continue
 
+                edge_key = self._get_edge_key((u_agent, v_agent))
+                self.ghosted_edges.pop(edge_key, None)
+                self.edges_to_update.discard(edge_key)
+                self.graph.remove_edge(u_agent, v_agent)
                 self._remove_edge_key(u_agent, v_agent)
+                # if ghost not participating in network and not requested, then remove
+                if not self._has_edge(ghost) and not agent_manager.is_requested(ghost.uid):
+                    agent_manager.remove_ghost(ghost)
+                    self.graph.remove_node(ghost)
+                    if agent_manager.get_ghost(ghost.uid, incr=0) is None:
+                        no_longer_ghosts[ghost.local_rank].append(ghost.uid)
+
+        # tell the ghosts' ranks that their agents are no longer ghosts here
+        for rank, ids in enumerate(self.comm.alltoall(no_longer_ghosts)):
+            for id in ids:
+                agent_manager.delete_ghosted_to(rank, id)
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -380,7 +364,7 @@ class SharedNetwork(SharedProjection, ABC):
         """
         sync_agents = [[] for i in range(self.comm.size)]
         sync_edges = [[] for i in range(self.comm.size)]
-        for nodes, ghosted_edge in list(self.new_edges.items()):
+        for nodes, ghosted_edge in self.new_edges.items():
             local_agent = ghosted_edge.local_agent
             ghost_agent = ghosted_edge.ghost_agent
             other_rank = ghost_agent.local_rank
@@ -388,17 +372,16 @@ class SharedNetwork(SharedProjection, ABC):
             # not already ghosted so send agent itself
             if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
                 sync_agents[other_rank].append(local_agent.save())
-            # first edge to that rank in this network
-            if not self._has_synced_edge(local_agent, other_rank):
                 agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
-            del self.new_edges[nodes]
 
             sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
+        self.new_edges.clear()
 
         for edge_key in self.edges_to_update:
-            ghosted_edge = self.ghosted_edges[edge_key]
-            other_rank = ghosted_edge.ghost_agent.local_rank
-            sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
+            # the edge may have been created by this or by the other rank
+            u, v = edge_key
+            other_rank = u.local_rank if u.local_rank != self.rank else v.local_rank
+            sync_edges[other_rank].append((u.uid, v.uid, self.graph.edges[edge_key]))
         self.edges_to_update.clear()
 
         recv_agents = self.comm.alltoall(sync_agents)
@@ -556,7 +539,8 @@ class SharedNetwork(SharedProjection, ABC):
                     # and now the edge is gone so remove as node and ghost
                     nodes_to_remove.append(other)
                     agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
+                    if agent_manager.get_ghost(other.uid, incr=0) is None:
+                        self._no_longer_ghosts[other.local_rank].append(other.uid)
 
             else:
                 # moving agent participates in edges with local agents
@@ -608,9 +592,7 @@ class SharedNetwork(SharedProjection, ABC):
         stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
         for ghost_rank, ids in enumerate(stop_ghosting_ids):
             for id in ids:
-                # may have been removed in the meantime
-                if agent_manager.is_ghosted_to(ghost_rank, id):
-                    agent_manager.untag_as_ghosted(ghost_rank, id)
+                agent_manager.delete_ghosted_to(ghost_rank, id)
         self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
 
         for uid, dest in moved_agents:
@@ -765,7 +747,6 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -774,7 +755,6 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -906,7 +886,6 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -915,7 +894,6 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From ea84339abcb7363b32b242e6e97d5fa8638deb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:36 +0000
Subject: [PATCH 11/47] fix: an edge to a buffered agent that was removed by
 its rank no longer raises a KeyError

---
 src/repast4py/network.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index d5c42d7..74ad8fb 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -463,9 +463,20 @@ class SharedNetwork(SharedProjection, ABC):
         self.ghosts_to_ref.clear()
 
         recv_msg = self.comm.alltoall(send_msg)
+        removed = [[] for _ in range(self.comm.size)]
         for rank, agents in enumerate(recv_msg):
             for agent in agents:
-                agent_manager.tag_as_ghosted(rank, agent)
+                if agent_manager.get_local(agent) is None:
+                    # removed since it was sent as a ghost
+                    removed[rank].append(agent)
+                else:
+                    agent_manager.tag_as_ghosted(rank, agent)
+
+        for agents in self.comm.alltoall(removed):
+            for uid in agents:
+                ghost = agent_manager.get_ghost(uid, incr=0)
+                self.remove(ghost)
+                agent_manager.remove_ghost(ghost)
 
     def _post_agents_moved_rank(self, agent_manager: AgentManager, create_agent: Callable):
         """Notifies this projection that all the agent movement synchronization has occured,
-- 
2.43.0


From e4afb745e672e3825c54edc7eae5e0ef42f2481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 12/47] fix: an agent received for an edge does not replace its
 existing ghost

---
 src/repast4py/network.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 74ad8fb..680cf1f 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -387,10 +387,16 @@ class SharedNetwork(SharedProjection, ABC):
         recv_agents = self.comm.alltoall(sync_agents)
         for rank, agents in enumerate(recv_agents):
             for agent_data in agents:
-                agent = create_agent(agent_data)
-                # 1 because added to network
-                agent_manager.add_ghost(rank, agent, 1)
-                self.add(agent)
+                agent = agent_manager.get_ghost(agent_data[0], incr=0)
+                if agent is None:
+                    agent = create_agent(agent_data)
+                    # 1 because added to network
+                    agent_manager.add_ghost(rank, agent, 1)
+                    self.add(agent)
+                elif not self.graph.has_node(agent):
+                    # already a ghost here, for example in the buffer of a space
+                    agent_manager.get_ghost(agent.uid)
+                    self.add(agent)
 
         return sync_edges
 
-- 
2.43.0


From ab87e4375175b680c5a7b9280367a0dff84ddb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 13/47] fix: an agent that leaves the local bounds is removed
 from all of its projections

---
 src/repast4py/context.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index ae90fab..adb93c9 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -140,9 +140,12 @@ class SharedContext:
             to send the data in the second list to.
         """
         send_data = [[] for i in range(self.comm.size)]
-        # gather agents to send from the out of bounds (oob) sequence
-        for pid, proj in self.bounded_projs.items():
-            for agent_id, ngh_rank, pt in proj._get_oob():
+        # gather agents to send from the out of bounds (oob) sequences. An agent is removed
+        # from all of its projections, together with its oob data, when the first of
+        # these is processed, so get all the sequences first
+        oob_data = [(pid, list(proj._get_oob())) for pid, proj in self.bounded_projs.items()]
+        for pid, oob in oob_data:
+            for agent_id, ngh_rank, pt in oob:
                 agent = self._agent_manager.remove_local(agent_id)
                 if agent is None:
                     # already removed
@@ -154,15 +157,14 @@ class SharedContext:
                     if agent_id in self._agent_manager._ghosted_agents:
                         data.append(self._agent_manager.delete_ghosted(agent_id))
 
-                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
-                    for nb_proj in self.non_bounded_projs:
-                        nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
+                    for proj in self.projections.values():
+                        proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
 
                 # send to ngh rank a list of lists - inner list
                 # is [(agent_id, agent_state), (projection id, and projection data)]
                 send_data[ngh_rank].append([data, (pid, pt)])
 
-            proj._clear_oob()
+            self.bounded_projs[pid]._clear_oob()
 
         return send_data
 
-- 
2.43.0


From 53ef9878acd0770adbfd17231a7ded6efc0a16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 14/47] fix: all of an agent's ghosts know the rank it moved to

---
 src/repast4py/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index adb93c9..85421b4 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -484,6 +484,10 @@ class SharedContext:
         moved_ids = [(x.uid, dest) for x, dest in moved_agents]
         all_moved_agents = self.comm.allgather(moved_ids)
         any_moved = not is_empty(all_moved_agents)
+        for uid, dest in itertools.chain(*all_moved_agents):
+            ghost = self._agent_manager.get_ghost(uid, incr=0)
+            if ghost is not None:
+                ghost.local_rank = dest
         # replace agents moved by this rank with empty list
         # as we can ignore these given that they should be processed
         # in a previous call to proj._agent_moving_rank
-- 
2.43.0


From 62532c38848c88ac07ecbba8e09096d546171eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 15/47] fix: log to a file in the working directory

A log file path without a directory part made ReducingDataSet and
TabularLogger call os.makedirs('') and fail.
---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From 5a32aa32de58bed47dd2ca23d81c31eacc4ff147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 16/47] fix: values of the buffer of a periodic shared value
 layer are read where they are stored

---
 src/repast4py/value_layer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..5e25110 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -46,7 +46,7 @@ class _Impl1D:
         """
         self.borders._transform(pt, self.tpt)
         # npt is a np array
-        npt = self.tpt.coordinates + self.translation
+        npt = self.tpt.coordinates + self.pt_translation
         return self.grid[npt[0]]
 
     def set(self, pt: DiscretePoint, val):
@@ -58,7 +58,7 @@ class _Impl1D:
         """
         self.borders._transform(pt, self.tpt)
         # npt is a np array
-        npt = self.tpt.coordinates + self.translation
+        npt = self.tpt.coordinates + self.pt_translation
         self.grid[npt[0]] = val
 
     def get_nghs(self, pt: DiscretePoint):
@@ -504,19 +504,23 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        if self.periodic and comm.Get_size() > 1:
+            # the grid's first cells are the buffer, also where the buffer wraps around the global bounds
+            lb, bb = self.local_bounds, self.buffered_bounds
+            ymin = lb.ymin - buffer_size if bb.yextent > 0 else lb.ymin
+            zmin = lb.zmin - buffer_size if bb.zextent > 0 else lb.zmin
+            grid_bounds = BoundingBox(lb.xmin - buffer_size, bb.xextent, ymin, bb.yextent, zmin, bb.zextent)
+        else:
+            grid_bounds = self.buffered_bounds
+        super().__init__(grid_bounds, borders, 'random', dtype)
+        self.bbounds = self.buffered_bounds
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
         self.buffer_self = []
-        if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
+        if self.periodic and comm.Get_size() > 1:
             if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
                 self.buffer_self.append(self._buffer_self_X)
 
-- 
2.43.0


From 92d422e98389231f04bca73ab8b3fb48cd5476d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 17/47] fix: a shared value layer whose bounds do not start at
 0 is buffered from its own origin

---
 src/repast4py/value_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 5e25110..898c05b 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -592,9 +592,9 @@ class SharedValueLayer(ValueLayer):
         return (start_val, end_val)
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
+        xmin, xextent = bounds.xmin, 0
+        ymin, yextent = bounds.ymin, 0
+        zmin, zextent = bounds.zmin, 0
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-- 
2.43.0


From bcb6d54946a5dd4c77bed43edb796b3729026067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 18/47] fix: corners of a periodic shared value layer in a
 dimension that is not split are buffered at the opposite end

---
 src/repast4py/value_layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 898c05b..7517b05 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -815,8 +815,11 @@ class SharedValueLayer(ValueLayer):
         cts = [c_trans for _ in range(num_sent_slices)]
         if topo.procs_per_dim[0] == 1:
             cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
+        elif topo.procs_per_dim[1] == 1 and self.periodic:
+            # the corners are from the other end of the y dimension, a low one is buffered at the
+            # high end and the other way round
+            yextent = self.local_bounds.yextent
+            rts = [r_trans + yextent, r_trans - yextent, r_trans + yextent, r_trans - yextent, r_trans, r_trans]
 
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
-- 
2.43.0


From 5b8bf6f05f420cf698b9477ebc27ef22c0f3b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 19/47] fix: a shared value layer on one process has nothing to
 synchronize

---
 src/repast4py/value_layer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 7517b05..6ab50bb 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -969,9 +969,14 @@ class SharedValueLayer(ValueLayer):
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
         # recv_buf_data: (ngh_rank, shape, slice_tuple)
 
+        if self.cart_comm.Get_size() == 1:
+            # nothing is buffered
+            return
+
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
+        # where the next slice to each rank goes: a rank can be sent more than one
+        send_displs = send_msg[1][1].copy()
         send_buf = send_msg[0]
         for ngh_rank, size, _, _, tslice in ngh_buffers:
             disp = send_displs[ngh_rank]
-- 
2.43.0


From 04a21778c0f4d3f444e296f6aa342e39fef5a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 20/47] fix: slices of a shared value layer sent to the same
 rank do not overwrite one another

---
 src/repast4py/value_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 6ab50bb..9a1293e 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -981,12 +981,13 @@ class SharedValueLayer(ValueLayer):
         for ngh_rank, size, _, _, tslice in ngh_buffers:
             disp = send_displs[ngh_rank]
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
+            send_displs[ngh_rank] += size
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
         # update grid view from recv_buffer
         recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
+        recv_displs = recv_msg[1][1].copy()
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
             for ngh_rank, size, shape, tslice in items:
@@ -994,6 +995,7 @@ class SharedValueLayer(ValueLayer):
                     disp = recv_displs[ngh_rank]
                     self.grid[tslice] = torch.as_tensor(
                         recv_buf[disp: disp + size].reshape(shape))
+                    recv_displs[ngh_rank] += size
 
                 except Exception:
                     print(self.rank, ngh_rank, size, shape, tslice)
-- 
2.43.0


From bbc0968463cc300f043097dd97fb551d80268bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 21/47] fix: get_nghs of a read-write value layer reads the
 read layer

---
 src/repast4py/value_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 9a1293e..244e601 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -1100,7 +1100,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
-- 
2.43.0


From 00dae817b41c4b8767ac7216b23136601ea33c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 22/47] fix: a context can synchronize a read-write value layer

---
 src/repast4py/value_layer.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 244e601..231fb97 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -7,7 +7,7 @@
 import torch
 import numpy as np
 
-from typing import Callable, Tuple
+from typing import Tuple
 
 from . import geometry
 
@@ -1111,13 +1111,8 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
-
-        Args:
-            agent_manager: this rank's AgentManager
-            create_agent: a callable that can create an agent instance from
-            an agent id and data.
         """
         self.write_layer._synch_ghosts()
         self.read_layer._synch_ghosts()
-- 
2.43.0


From da3be5dc805da2db94f57a32474f5645fe2c4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 23/47] fix: periodic borders leave stale coordinates in the
 unused dimensions of 1D and 2D spaces

---
 src/repast4py/borders.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..3dd9510 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -97,6 +97,8 @@ void transformX(const PointType* pt, Point<PointType>& transformed_pt, const Bou
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -109,6 +111,7 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
-- 
2.43.0


From cb187a8383bff5f15bf3f85341895a05516a5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 24/47] fix: periodic borders can round a continuous coordinate
 up to the upper bound

---
 src/repast4py/borders.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 3dd9510..6364975 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,6 +90,7 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+// The sums in the transforms below can round up to the maximum, which is outside of the bounds.
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
@@ -97,6 +98,7 @@ void transformX(const PointType* pt, Point<PointType>& transformed_pt, const Bou
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
     transformed_pt.y = bounds.ymin_;
     transformed_pt.z = bounds.zmin_;
 }
@@ -108,9 +110,11 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
 
     coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
     transformed_pt.z = bounds.zmin_;
 }
 
@@ -121,12 +125,15 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
     transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    if (transformed_pt.x >= bounds.xmax_) transformed_pt.x = bounds.xmin_;
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
     transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    if (transformed_pt.y >= bounds.ymax_) transformed_pt.y = bounds.ymin_;
 
     nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
     transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    if (transformed_pt.z >= bounds.zmax_) transformed_pt.z = bounds.zmin_;
 }
 
 template<typename PointType>
-- 
2.43.0


From e448b94c2a961454d4edf78579a7b2083e8dc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 25/47] fix: sticky borders return the upper bound itself in
 large continuous spaces

---
 src/repast4py/borders.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index 6364975..7bbe292 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -7,6 +7,9 @@
 #ifndef SRC_BORDERS_H
 #define SRC_BORDERS_H
 
+#include <cmath>
+#include <algorithm>
+
 #include "types.h"
 #include "geometry.h"
 
@@ -42,11 +45,16 @@ struct Offset {
 template<>
 struct Offset<R4Py_DiscretePoint> {
     constexpr static long_t value = 1;
+
+    static long_t last(long_t max) { return max - value; }
 };
 
 template<>
 struct Offset<R4Py_ContinuousPoint> {
     constexpr static double value = 0.00000001;
+
+    // max - value rounds to max when max is large
+    static double last(double max) { return std::min(max - value, std::nextafter(max, -HUGE_VAL)); }
 };
 
 template <typename PointType>
@@ -64,9 +72,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, PointType* transfo
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min(Offset<PointType>::last(bounds_.xmax_), data[0]));
+    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min(Offset<PointType>::last(bounds_.ymax_), data[1]));
+    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min(Offset<PointType>::last(bounds_.zmax_), data[2]));
 }
 
 template<typename PointType>
@@ -82,9 +90,9 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
     // v = (bounds_.zmax_ - 1) < data[2] ? (bounds_.zmax_ - 1) : data[2];
     // transformed_pt.z = bounds_.zmin_ > v ? bounds_.zmin_ : v;
 
-    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
-    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
-    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));
+    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min(Offset<PointType>::last(bounds_.xmax_), data[0]));
+    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min(Offset<PointType>::last(bounds_.ymax_), data[1]));
+    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min(Offset<PointType>::last(bounds_.zmax_), data[2]));
 }
 
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
-- 
2.43.0


From d8c1953b3ba57e1e318c18330026c9ace978048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 26/47] fix: three-dimensional periodic spaces share wrong
 regions with ranks that are neighbors in several directions

---
 src/repast4py/distributed_space.cpp | 28 ++++------------------------
 src/repast4py/distributed_space.h   |  2 ++
 2 files changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..e548c09 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -177,31 +177,11 @@ void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& c
         //     p_ranks.emplace(ngh.rank);
         // }
     } else if (num_dims == 3) {
-        bool x2 = procs_per_dim[0] == 2;
-        bool y2 = procs_per_dim[1] == 2;
-        bool z2 = procs_per_dim[2] == 2;
         for (auto& ngh : nghs) {
-            offsets[0] = ngh.cart_coord_x - cart_coords[0];
-            offsets[1] = ngh.cart_coord_y - cart_coords[1];
-            offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
-            }
+            offsets[0] = ngh.xd;
+            offsets[1] = ngh.yd;
+            offsets[2] = ngh.zd;
             compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
         }
     }
 }
@@ -435,7 +415,7 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
                         //ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
                         //{0, 0, 0, 0}});
                         neighbors.push_back(CTNeighbor{n_rank, working[0], working[1], working[2], nullptr,
-                            {0, 0, 0, 0}});
+                            {0, 0, 0, 0}, xd, yd, zd});
                     }
                 }
             }
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 88b6bca..7947f89 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -27,6 +27,8 @@ struct CTNeighbor {
     // buffered agents - tuple: (rank, (xmin, xmax, ymin, ymax, zmin, zmax))
     PyObject* buffer_info;
     BoundingBox local_bounds;
+    // the direction of the neighbor, -1, 0 or 1 in each dimension
+    int xd, yd, zd;
 };
 
 struct GetBufferInfo {
-- 
2.43.0


From e44e29130ae4d5f229aa44388a9a554884bec8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 27/47] fix: two-dimensional periodic spaces and value layers
 crash on 3, 5, 7 .. processes in one dimension

---
 src/repast4py/distributed_space.cpp | 7 +++++++
 src/repast4py/value_layer.py        | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e548c09..4d2b414 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -133,6 +133,13 @@ void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& c
                 if (val[2] != 0 && y2) {
                     fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
                 }
+            } else if (val[0] == 3) {
+                // one proc in the other dimension -- meet at a side and its two corners
+                if (procs_per_dim[1] == 1) {
+                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], -1, val[1], 1, val[1], 0});
+                } else {
+                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, val[2], 1, val[2], 0, val[2]});
+                }
             } else if (val[0] == 4) {
                 // both dimensions duplicated
                 fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 231fb97..b1cb8ea 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -782,6 +782,8 @@ class SharedValueLayer(ValueLayer):
                     data_size = 36
                 else:
                     data_size = 12
+            elif topo.procs_per_dim[0] == 1 or topo.procs_per_dim[1] == 1:
+                data_size = 18
 
         # send buffer for meta data (bounds etc.)
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -820,6 +822,8 @@ class SharedValueLayer(ValueLayer):
             # high end and the other way round
             yextent = self.local_bounds.yextent
             rts = [r_trans + yextent, r_trans - yextent, r_trans + yextent, r_trans - yextent, r_trans, r_trans]
+            if num_sent_slices == 3:
+                rts = [r_trans + yextent, r_trans - yextent, r_trans]
 
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
-- 
2.43.0


From 1415e40b80223f1d71e11b0180f1bf3dfe384f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:25 +0000
Subject: [PATCH 28/47] fix: the coordinates of a cartesian topology always had
 three elements, the unused ones uninitialized

---
 src/repast4py/distributed_space.cpp |  2 +-
 src/repast4py/spacemodule.cpp       | 16 +++-------------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index 4d2b414..e9a7dbf 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -261,7 +261,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 890941f..74810c1 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -2663,23 +2663,13 @@ static PyObject* CartesianTopology_getLocalBounds(PyObject* self, void* args) {
 static PyObject* CartesianTopology_getCartCoords(PyObject* self, void* closure) {
     std::vector<int> coords;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
-    #if defined(_MSC_VER)
     if (coords.size() == 1) {
-        return Py_BuildValue("(L)", coords[0]);
+        return Py_BuildValue("(i)", coords[0]);
     } else if (coords.size() == 2) {
-        return Py_BuildValue("(LL)", coords[0], coords[1]);
+        return Py_BuildValue("(ii)", coords[0], coords[1]);
     } else {
-        return Py_BuildValue("(LLL)", coords[0], coords[1], coords[2]);
+        return Py_BuildValue("(iii)", coords[0], coords[1], coords[2]);
     }
-    #else
-    if (coords.size() == 1) {
-        return Py_BuildValue("(l)", coords[0]);
-    } else if (coords.size() == 2) {
-        return Py_BuildValue("(ll)", coords[0], coords[1]);
-    } else {
-        return Py_BuildValue("(lll)", coords[0], coords[1], coords[2]);
-    }
-    #endif
 
 }
 
-- 
2.43.0


From 801a34878d1794d9cd944928405f9dfe1e043054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 29/47] fix: moving or removing agents while iterating over
 get_agents or get_agents_within used freed list nodes and agents

---
 src/repast4py/core.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/core.h b/src/repast4py/core.h
index 7e69d80..3f2b1b5 100644
--- a/src/repast4py/core.h
+++ b/src/repast4py/core.h
@@ -62,11 +62,14 @@ class TAgentIter : public AgentIter {
 
 private:
     std::shared_ptr<IterableT> iterable_;
+    // what is iterated over: a copy that owns references to its agents, as the agents can be
+    // moved and removed during the iteration, which changes the iterable
+    IterableT agents_;
     typename IterableT::iterator iter_;
 
 public:
     TAgentIter(std::shared_ptr<IterableT>);
-    virtual ~TAgentIter() {}
+    virtual ~TAgentIter();
 
     R4Py_Agent* next() override;
     bool hasNext() override;
@@ -75,16 +78,35 @@ public:
 
 template<typename IterableT>
 TAgentIter<IterableT>::TAgentIter(std::shared_ptr<IterableT> iterable) : AgentIter(),
-    iterable_{iterable}, iter_(iterable_->begin()) {}
+    iterable_{iterable}, agents_(), iter_(agents_.begin()) 
+{
+    reset();
+}
+
+template<typename IterableT>
+TAgentIter<IterableT>::~TAgentIter() {
+    for (auto agent : agents_) {
+        Py_DECREF(agent);
+    }
+}
 
 template<typename IterableT>
 bool TAgentIter<IterableT>::hasNext() {
-    return iter_ != iterable_->end();
+    return iter_ != agents_.end();
 }
 
 template<typename IterableT>
 void TAgentIter<IterableT>::reset() {
-    iter_ = iterable_->begin();
+    IterableT agents(*iterable_);
+    for (auto agent : agents) {
+        Py_INCREF(agent);
+    }
+    agents_.swap(agents);
+    iter_ = agents_.begin();
+    // release the references of the previous iteration
+    for (auto agent : agents) {
+        Py_DECREF(agent);
+    }
 }
 
 template<typename IterableT>
-- 
2.43.0


From 7181330672a3dbea2cf57b1d85b7eedb017f2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 30/47] fix: adding an agent that is already in a space made it
 lose its location but kept it listed there

---
 src/repast4py/distributed_space.h | 3 +++
 src/repast4py/space.h             | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index 7947f89..ef3f204 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -216,6 +216,9 @@ void DistributedCartesianSpace<BaseSpaceType>::getAllBounds(MPI_Comm comm) {
 
 template<typename BaseSpaceType>
 bool DistributedCartesianSpace<BaseSpaceType>::add(R4Py_Agent* agent) {
+    auto iter = out_of_bounds_agents->find(agent->aid);
+    // the key is the id of another agent, replaced by this one
+    if (iter != out_of_bounds_agents->end() && iter->first != agent->aid) eraseOOB(agent->aid);
     return base_space->add(agent);
 }
 
diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..fe9e73b 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,6 +94,14 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    auto iter = agent_map.find(agent->aid);
+    if (iter != agent_map.end()) {
+        // keep the location of an agent that is already in this space
+        if (iter->second->agent == agent) return true;
+        // another agent with the same id is replaced, including its location
+        remove(agent->aid);
+    }
+
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
-- 
2.43.0


From 17b01822842e3163618bb98b33a01f8c6494ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:04 +0000
Subject: [PATCH 31/47] fix: get_agents_within missed agents, or crashed, after
 agents that shared a point moved or were removed

---
 src/repast4py/SpatialTree.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..03c3f61 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -91,6 +91,7 @@ class MOItems {
 
 private:
     size_t sum;
+    // the keys are copies of the added points: those change when their agent moves
     std::map<PointType*, size_t, PtrPointComp<PointType>> point_counts;
 
 public:
@@ -117,8 +118,9 @@ void MOItems<PointType>::add(PointType* pt) {
     auto iter = point_counts.find(pt);
     if (iter == point_counts.end()) {
         ++sum;
-        Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
+        Point<PointType> coords;
+        extract_coords(pt, coords);
+        point_counts.emplace(create_point(Py_TYPE(pt), coords), 1);
     } else {
         ++(iter->second);
     }
@@ -143,14 +145,18 @@ bool MOItems<PointType>::remove(PointType* pt) {
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
     for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+        for (size_t i = 0; i < kv.second; ++i) {
+            node->addItem(kv.first, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
     for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+        for (size_t i = 0; i < kv.second; ++i) {
+            node->addItem(kv.first, threshold);
+        }
     }
 }
 
-- 
2.43.0


From d57923373dd744cb1e04fe4b0eb9c0913a23b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:29 +0000
Subject: [PATCH 32/47] fix: release the points of a spatial tree's nodes when
 the tree is destroyed

---
 src/repast4py/SpatialTree.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 03c3f61..2b309a9 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -111,7 +111,9 @@ public:
 template<typename PointType>
 MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
 template<typename PointType>
-MOItems<PointType>::~MOItems() {}
+MOItems<PointType>::~MOItems() {
+    clear();
+}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
@@ -226,7 +228,9 @@ template<typename PointType>
 SOItems<PointType>::SOItems() : points{} {}
 
 template<typename PointType>
-SOItems<PointType>::~SOItems() {}
+SOItems<PointType>::~SOItems() {
+    clear();
+}
 
 template<typename PointType>
 void SOItems<PointType>::add(PointType* pt) {
-- 
2.43.0


From bf8eb9f51c6bfae24363b0bf828665a77ecc6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 33/47] fix: release the buffer info tuples of a topology's
 neighbors

---
 src/repast4py/distributed_space.cpp | 9 +++++++++
 src/repast4py/distributed_space.h   | 7 +++++--
 src/repast4py/spacemodule.cpp       | 2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e9a7dbf..a2f3922 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -76,6 +76,15 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
 }
 
+std::shared_ptr<std::vector<CTNeighbor>> make_neighbors() {
+    return std::shared_ptr<std::vector<CTNeighbor>>(new std::vector<CTNeighbor>(), [](std::vector<CTNeighbor>* nghs) {
+        for (auto& ngh : *nghs) {
+            Py_XDECREF(ngh.buffer_info);
+        }
+        delete nghs;
+    });
+}
+
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size)
 {
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index ef3f204..e03b060 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -38,6 +38,9 @@ struct GetBufferInfo {
     }
 };
 
+// the neighbors own a reference to their buffer_info, released with the vector
+std::shared_ptr<std::vector<CTNeighbor>> make_neighbors();
+
 void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& cart_coords, 
     BoundingBox& local_bounds, int num_dims, const int* procs_per_dim, unsigned int buffer_size);
 
@@ -127,7 +130,7 @@ template<typename BaseSpaceType>
 DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::string& name, const BoundingBox& bounds, 
         unsigned int buffer_size, MPI_Comm comm) : base_space {std::unique_ptr<BaseSpaceType>(new BaseSpaceType(name, bounds))}, 
         local_bounds{0, 0, 0, 0}, out_of_bounds_agents{std::make_shared<AIDPyObjMapT>()}, 
-        buffer_size_{buffer_size}, cart_comm{}, nghs{std::make_shared<std::vector<CTNeighbor>>()}, all_bounds{},
+        buffer_size_{buffer_size}, cart_comm{}, nghs{make_neighbors()}, all_bounds{},
         rank{-1}
 {
     int dims = 1;
@@ -148,7 +151,7 @@ template<typename BaseSpaceType>
 DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::string& name, const BoundingBox& bounds, 
         unsigned int buffer_size, MPI_Comm comm, int tree_threshold) : base_space {std::unique_ptr<BaseSpaceType>(new BaseSpaceType(name, bounds, tree_threshold))}, 
         local_bounds{0, 0, 0, 0}, out_of_bounds_agents{std::make_shared<AIDPyObjMapT>()}, 
-        buffer_size_{buffer_size}, cart_comm{}, nghs{std::make_shared<std::vector<CTNeighbor>>()}, all_bounds{},
+        buffer_size_{buffer_size}, cart_comm{}, nghs{make_neighbors()}, all_bounds{},
         rank{-1}
 {
     int dims = 1;
diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 74810c1..b3ca1a8 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -2693,7 +2693,7 @@ static PyObject* CartesianTopology_computeBufferData(PyObject* self, PyObject* a
     
     std::vector<int> coords;
     ((R4Py_CartesianTopology*)self)->topo->getCoords(coords);
-    auto nghs = std::make_shared<std::vector<CTNeighbor>>();
+    auto nghs = make_neighbors();
     ((R4Py_CartesianTopology*)self)->topo->getNeighbors(*nghs);
     BoundingBox bounds(0, 0, 0, 0, 0, 0);
     ((R4Py_CartesianTopology*)self)->topo->getBounds(bounds);
-- 
2.43.0


From e913cbd0dd571318df1229676633ccad51800fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 34/47] fix: release the out of bounds data when a shared space
 is destroyed

---
 src/repast4py/distributed_space.cpp | 17 +++++++++++++++++
 src/repast4py/distributed_space.h   | 18 +++++++++---------
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index a2f3922..5181321 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -76,6 +76,23 @@ void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, Boundin
 
 }
 
+void clear_oob_map(AIDPyObjMapT& oob) {
+    for (auto& kv: oob) {
+        // Note: key wasn't inc'reffed
+        Py_DECREF(PyTuple_GET_ITEM(kv.second, 0));
+        Py_DECREF(PyTuple_GET_ITEM(kv.second, 2));
+        Py_DECREF(kv.second);
+    }
+    oob.clear();
+}
+
+std::shared_ptr<AIDPyObjMapT> make_oob_map() {
+    return std::shared_ptr<AIDPyObjMapT>(new AIDPyObjMapT(), [](AIDPyObjMapT* oob) {
+        clear_oob_map(*oob);
+        delete oob;
+    });
+}
+
 std::shared_ptr<std::vector<CTNeighbor>> make_neighbors() {
     return std::shared_ptr<std::vector<CTNeighbor>>(new std::vector<CTNeighbor>(), [](std::vector<CTNeighbor>* nghs) {
         for (auto& ngh : *nghs) {
diff --git a/src/repast4py/distributed_space.h b/src/repast4py/distributed_space.h
index e03b060..4bfaf07 100644
--- a/src/repast4py/distributed_space.h
+++ b/src/repast4py/distributed_space.h
@@ -84,6 +84,12 @@ struct R4Py_CartesianTopology {
 
 using AIDPyObjMapT = std::map<R4Py_AgentID*, PyObject*, agent_id_comp>;
 
+// clears the map, releasing the references it holds
+void clear_oob_map(AIDPyObjMapT& oob);
+
+// the entries left in the map are released with it
+std::shared_ptr<AIDPyObjMapT> make_oob_map();
+
 template<typename BaseSpaceType>
 class DistributedCartesianSpace {
 
@@ -129,7 +135,7 @@ public:
 template<typename BaseSpaceType>
 DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::string& name, const BoundingBox& bounds, 
         unsigned int buffer_size, MPI_Comm comm) : base_space {std::unique_ptr<BaseSpaceType>(new BaseSpaceType(name, bounds))}, 
-        local_bounds{0, 0, 0, 0}, out_of_bounds_agents{std::make_shared<AIDPyObjMapT>()}, 
+        local_bounds{0, 0, 0, 0}, out_of_bounds_agents{make_oob_map()}, 
         buffer_size_{buffer_size}, cart_comm{}, nghs{make_neighbors()}, all_bounds{},
         rank{-1}
 {
@@ -150,7 +156,7 @@ DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::s
 template<typename BaseSpaceType>
 DistributedCartesianSpace<BaseSpaceType>::DistributedCartesianSpace(const std::string& name, const BoundingBox& bounds, 
         unsigned int buffer_size, MPI_Comm comm, int tree_threshold) : base_space {std::unique_ptr<BaseSpaceType>(new BaseSpaceType(name, bounds, tree_threshold))}, 
-        local_bounds{0, 0, 0, 0}, out_of_bounds_agents{std::make_shared<AIDPyObjMapT>()}, 
+        local_bounds{0, 0, 0, 0}, out_of_bounds_agents{make_oob_map()}, 
         buffer_size_{buffer_size}, cart_comm{}, nghs{make_neighbors()}, all_bounds{},
         rank{-1}
 {
@@ -314,13 +320,7 @@ std::shared_ptr<std::vector<CTNeighbor>> DistributedCartesianSpace<BaseSpaceType
 
 template<typename BaseSpaceType>
 void DistributedCartesianSpace<BaseSpaceType>::clearOOBData() {
-    for (auto& kv: (*out_of_bounds_agents)) {
-        // Note: key wasn't inc'reffed
-        Py_DECREF(PyTuple_GET_ITEM(kv.second, 0));
-        Py_DECREF(PyTuple_GET_ITEM(kv.second, 2));
-        Py_DECREF(kv.second);
-    }
-    out_of_bounds_agents->clear();
+    clear_oob_map(*out_of_bounds_agents);
 }
 
 template<typename BaseSpaceType>
-- 
2.43.0


From f93c8147a86675b03a4043abbcf2ed22987018ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 35/47] fix: do not leak a reference to the communicator a
 space or topology is created from

---
 src/repast4py/spacemodule.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index b3ca1a8..128b3d8 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -1163,9 +1163,6 @@ static int SharedGrid_init(R4Py_SharedGrid* self, PyObject* args, PyObject* kwds
         return -1;
     }
 
-    // Because we are holding a reference to the communicator
-    // I think this is necessary
-    Py_INCREF(py_comm);
     MPI_Comm* comm_p = PyMPIComm_Get(py_comm);
 
     BoundingBox box(xmin, x_extent, ymin, y_extent, zmin, z_extent);
@@ -2046,9 +2043,6 @@ static int SharedCSpace_init(R4Py_SharedCSpace* self, PyObject* args, PyObject*
         return -1;
     }
 
-    // Because we are holding a reference to the communicator
-    // I think this is necessary
-    Py_INCREF(py_comm);
     MPI_Comm* comm_p = PyMPIComm_Get(py_comm);
 
     BoundingBox box(xmin, x_extent, ymin, y_extent, zmin, z_extent);
@@ -2618,7 +2612,6 @@ static int CartesianTopology_init(R4Py_CartesianTopology* self, PyObject* args,
     if (box.y_extent_ > 0) ++dims;
     if (box.z_extent_ > 0) ++dims;
 
-    Py_INCREF(py_comm);
     MPI_Comm* comm_p = PyMPIComm_Get(py_comm);
     self->topo = new CartesianTopology(*comm_p, &cart_comm, dims, box, (bool)periodic);
     if (!self->topo) {
-- 
2.43.0


From 3cfa6d60fbc0ace816d7b1e8a6127ae055954e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 36/47] fix: do not leak the coordinates and periods of a
 cartesian topology

---
 src/repast4py/distributed_space.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index 5181321..46f2b97 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -231,10 +231,9 @@ CartesianTopology::CartesianTopology(MPI_Comm comm, MPI_Comm* cart_comm, int num
     std::fill_n(procs_per_dim, num_dims, 0);
     MPI_Dims_create(size, num_dims, procs_per_dim);
 
-    int* periods = new int[num_dims];
-    std::fill_n(periods, num_dims, periodic ? 1 : 0);
+    std::vector<int> periods(num_dims, periodic ? 1 : 0);
 
-    MPI_Cart_create(comm, num_dims, procs_per_dim, periods, 0, cart_comm);
+    MPI_Cart_create(comm, num_dims, procs_per_dim, periods.data(), 0, cart_comm);
     comm_ = *cart_comm;
 
     x_remainder = bounds_.x_extent_ % procs_per_dim[0];
@@ -268,10 +267,9 @@ CartesianTopology::CartesianTopology(MPI_Comm comm, MPI_Comm* cart_comm, const s
         procs_per_dim[i] = procs_per_dimension[i];
     }
 
-    int* periods = new int[num_dims_];
-    std::fill_n(periods, num_dims_, periodic ? 1 : 0);
+    std::vector<int> periods(num_dims_, periodic ? 1 : 0);
 
-    MPI_Cart_create(comm, num_dims_, procs_per_dim, periods, 0, cart_comm);
+    MPI_Cart_create(comm, num_dims_, procs_per_dim, periods.data(), 0, cart_comm);
     comm_ = *cart_comm;
     x_remainder = bounds_.x_extent_ % procs_per_dim[0];
     if (num_dims_ > 1) {
@@ -309,8 +307,8 @@ int CartesianTopology::getRank() {
 }
 
 void CartesianTopology::getBounds(int rank, BoundingBox& local_bounds) {
-    int* coords = new int[num_dims_];
-    MPI_Cart_coords(comm_, rank, num_dims_, coords);
+    std::vector<int> coords(num_dims_);
+    MPI_Cart_coords(comm_, rank, num_dims_, coords.data());
     long_t x_extent = floor(bounds_.x_extent_ / procs_per_dim[0]);
     long_t xmin = bounds_.xmin_ + x_extent * coords[0];
     adjust_min_extent(coords[0], x_remainder, &xmin, &x_extent);
@@ -341,8 +339,8 @@ void CartesianTopology::getBounds(BoundingBox& local_bounds) {
 }
 
 void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
-    int* coords = new int[num_dims_];
-    MPI_Cart_coords(comm_, getRank(), num_dims_, coords);
+    std::vector<int> coords(num_dims_);
+    MPI_Cart_coords(comm_, getRank(), num_dims_, coords.data());
 
     // we can get duplicate neighbors when we have periodic space 
     // with only two procs in that dimension -- i.e. 1 and -1 offset 
-- 
2.43.0


From 42fd1ecc95e49d0005c4ee6f1c7f2c99a2d81c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 37/47] fix: restore the directed edges that come from an agent
 on another rank

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index bb7656c..764f8b5 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -430,7 +430,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From b6038b8500e1c446f287d54700bfb5726f0165cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 38/47] fix: save a copy of the agents' locations in a
 checkpoint

---
 src/repast4py/checkpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 764f8b5..6b344a8 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -314,7 +314,8 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            # the coordinates change when the agent moves
+            locations[agent.uid] = space.get_location(agent).coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
-- 
2.43.0


From febbe0da065f8e0c0c9d3f99898cdbf9adfb6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 39/47] fix: save a copy of the edges' attributes in a
 checkpoint

---
 src/repast4py/checkpoint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 6b344a8..4d30e37 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -350,13 +350,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From 5cdd00cbd43168f26a631bb4c6d8a11ec07e7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 40/47] fix: checkpoint a space in which an agent has no
 location

---
 src/repast4py/checkpoint.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 4d30e37..bc1e9ce 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -314,8 +314,9 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
+            location = space.get_location(agent)
             # the coordinates change when the agent moves
-            locations[agent.uid] = space.get_location(agent).coordinates.copy()
+            locations[agent.uid] = None if location is None else location.coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -332,11 +333,15 @@ class Checkpoint:
         if isinstance(space, SharedGrid):
             for agent in context.agents():
                 location = locations[agent.uid]
-                space.move(agent, DiscretePoint(location[0], location[1], location[2]))
+                # an agent that had no location when the space was saved has none now
+                if location is not None:
+                    space.move(agent, DiscretePoint(location[0], location[1], location[2]))
         else:
             for agent in context.agents():
                 location = locations[agent.uid]
-                space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
+                # an agent that had no location when the space was saved has none now
+                if location is not None:
+                    space.move(agent, ContinuousPoint(location[0], location[1], location[2]))
 
 
     def save_network(self, network: SharedNetwork, rank: int):
-- 
2.43.0


From 17f389c0f4ef79a2993302216efac2a17a986da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:37 +0000
Subject: [PATCH 41/47] fix: raise the documented error when a restored network
 misses an agent

---
 src/repast4py/checkpoint.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index bc1e9ce..5517856 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -438,18 +438,24 @@ class NetworkRestorer:
             else:
                 self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
+    def _get_node(self, node_uid):
+        node = self.context.agent(node_uid)
+        if node is None:
+            raise KeyError(node_uid)
+        return node
+
     def restore(self, requests: Dict):
         self.requests = requests
         edges = self.network_save["data"]
         try:
             if self.network.is_directed:
                 for node_uid, successors, predecessors in edges:
-                    node = self.context.agent(node_uid)
+                    node = self._get_node(node_uid)
                     self._add_edges(node, successors, self._make_suc_edge, self._add_suc_edge)
                     self._add_edges(node, predecessors, self._make_pre_edge, self._add_pre_edge)
             else:
                 for node_uid, others in edges:
-                    node = self.context.agent(node_uid)
+                    node = self._get_node(node_uid)
                     self._add_edges(node, others, self._make_suc_edge, self._add_suc_edge)
         except KeyError:
             raise ValueError("Expected agent not found in context. Have agents been restored to the context?")
-- 
2.43.0


From be8b0a963bf3d73728efe6b8ee7d6101904bf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:30 +0000
Subject: [PATCH 42/47] fix: read nested attributes and braces in strings from
 a network file

---
 src/repast4py/network.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 680cf1f..3d9448e 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -960,13 +959,12 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        vals = line.split(None, 3)
         n_vals = len(vals)
         if n_vals < 3 or n_vals > 4:
             raise ValueError
@@ -999,7 +997,7 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        vals = line.split(None, 2)
         n_vals = len(vals)
         if n_vals < 2 or n_vals > 3:
             raise ValueError
-- 
2.43.0


From 81743ebbdd32e83f4ef5fbf303da4f90670c1324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:37 +0000
Subject: [PATCH 43/47] fix: forget a request when the requested ghost is
 deleted

---
 src/repast4py/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index a712c2f..7bfd685 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -271,6 +271,8 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        # no longer a ghost, and so no longer a requested one
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From 4e39f2ce17a5ec93eef87fb8daacc715c102945f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:44 +0000
Subject: [PATCH 44/47] fix: agents out of bounds or in a buffer when agents
 are moved explicitly

---
 src/repast4py/context.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 85421b4..e521adc 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -514,6 +514,10 @@ class SharedContext:
             create_agent: a Callable that can take the result of an agent :samp: `save()` and
                 return an agent.
         """
+        # a moved agent may be in the buffer of the rank it moves to
+        for proj in self.bounded_projs.values():
+            proj._pre_synch_ghosts(self._agent_manager)
+
         sent_agents = [[] for i in range(self.comm.size)]
         moved_agents = []
         for uid, rank in agents_to_move:
@@ -529,6 +533,9 @@ class SharedContext:
             for proj in self.projections.values():
                 proj._agent_moving_rank(agent, rank, data, self._agent_manager)
 
+        # agents that are out of bounds move together with the specified agents
+        oob_data = self._gather_oob_data(moved_agents)
+
         recv_data = self.comm.alltoall(sent_agents)
         ghosts_to_remove = []
         for agents in recv_data:
@@ -545,6 +552,8 @@ class SharedContext:
                     ghosted_data.pop(self.rank, None)
                     self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
 
+        recv_data = self.comm.alltoall(oob_data)
+        self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
         self._agents_moved(moved_agents, self.projections.values())
 
         # received agents that used to be ghosts so
@@ -553,10 +562,6 @@ class SharedContext:
             self._agent_manager.delete_ghost(gh_uid)
 
         self._pre_synch_ghosts()
-        send_data = self._gather_oob_data([])
-        recv_data = self.comm.alltoall(send_data)
-        ghosts_to_remove = []
-        self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
         self._synch_ghosts(create_agent)
 
         for proj in self.projections.values():
-- 
2.43.0


From 941958f06970520fd6a16d5294dc731b5f8eae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:30 +0000
Subject: [PATCH 45/47] fix: points with equal coordinates are not unequal (!=)

---
 src/repast4py/spacemodule.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 128b3d8..823c65d 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -241,10 +241,11 @@ static PyObject* DiscretePoint_repr(R4Py_DiscretePoint* self) {
 }
 
 static PyObject* DiscretePoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         long_t* p1 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
         long_t* p2 = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        bool equal = p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2];
+        if (equal == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
@@ -487,10 +488,11 @@ static PyObject* ContinuousPoint_repr(R4Py_ContinuousPoint* self) {
 }
 
 static PyObject* ContinuousPoint_richcmp(PyObject* self, PyObject* other, int op) {
-    if (op == Py_EQ && Py_TYPE(self) == Py_TYPE(other)) {
+    if ((op == Py_EQ || op == Py_NE) && Py_TYPE(self) == Py_TYPE(other)) {
         double* p1 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
         double* p2 = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)other)->coords);
-        if (p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2]) 
+        bool equal = p1[0] == p2[0] && p1[1] == p2[1] && p1[2] == p2[2];
+        if (equal == (op == Py_EQ))
             Py_RETURN_TRUE;
         else
             Py_RETURN_FALSE;
-- 
2.43.0


From 7cf48768f9a99f39490b4ed1a0d3c523cb1284bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:53 +0000
Subject: [PATCH 46/47] fix: resetting a point from an array reads the elements
 of arrays that are not contiguous

---
 src/repast4py/spacemodule.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 823c65d..e283598 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -153,19 +153,16 @@ static PyObject* DiscretePoint_reset_from_array(PyObject* self, PyObject* args)
     long_t* d = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
     int typ = PyArray_TYPE(arr);
     if (typ == NPY_LONG) {
-        long* o = (long*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            d[i] = *(long*)PyArray_GETPTR1(arr, i);
         }
     } else if (typ == NPY_LONGLONG) {
-        long_t* o = (long_t*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            d[i] = *(long_t*)PyArray_GETPTR1(arr, i);
         }
     } else if (typ == NPY_INT) {
-        int* o = (int*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            d[i] = *(int*)PyArray_GETPTR1(arr, i);
         }
     } else {
         PyErr_SetString(PyExc_RuntimeError, "R4Py_DiscretePoint can only be reset from numpy array of integers");
@@ -404,14 +401,12 @@ static PyObject* ContinuousPoint_reset_from_array(PyObject* self, PyObject* args
     double* d = (double*)PyArray_DATA(((R4Py_ContinuousPoint*)self)->coords);
     int typ = PyArray_TYPE(arr);
     if (typ == NPY_DOUBLE) {
-        double* o = (double*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            d[i] = *(double*)PyArray_GETPTR1(arr, i);
         }
     } else if (typ == NPY_FLOAT) {
-        float* o = (float*)PyArray_DATA(arr);
         for (int i = 0; i < c && i < 3; ++i) {
-            d[i] = o[i];
+            d[i] = *(float*)PyArray_GETPTR1(arr, i);
         }
     } else {
         PyErr_SetString(PyExc_RuntimeError, "R4Py_ContinuousPoint can only be reset from numpy array of floats");
-- 
2.43.0


From 0189a9fa85cd5057b92f87b146aeb0fa3a58e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:09 +0000
Subject: [PATCH 47/47] fix: making an agent with an id whose type is negative
 raises ValueError and does not crash

---
 src/repast4py/coremodule.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 8ab1a32..7b8ff4c 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -202,13 +202,16 @@ static PyObject* Agent_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 
 static int Agent_init(R4Py_Agent* self, PyObject* args, PyObject* kwds) {
     static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", NULL};
+    // the "l" format writes a long, which is larger than the rank in the id
+    long rank = self->aid->rank;
     #if defined(_MSC_VER)
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &rank)) {
     # else
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &rank)) {
     #endif
         return -1;
     }
+    self->aid->rank = (unsigned int)rank;
     self->local_rank = self->aid->rank;
     if (self->aid->type < 0) {
         PyErr_SetString(PyExc_ValueError, "Type component of agent unique id must be a non-negative integer");
-- 
2.43.0

