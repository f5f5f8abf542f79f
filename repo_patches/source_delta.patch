From bc0454f7be92a31d112f01a403da4aac009b407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:21 +0000
Subject: [PATCH 01/43] fix: release demand in destination ID order instead of
 address order

---
 src/multiclass.cpp  |  4 ++--
 src/multiclass.h    |  4 ++--
 src/multimodal.cpp  |  8 ++++----
 src/multimodal.h    |  8 ++++----
 src/od.cpp          | 10 ++++++++--
 src/od.h            | 13 ++++++++++++-
 src/pre_routing.cpp |  2 +-
 7 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..0516883 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2879,8 +2879,8 @@ MNM_Origin_Multiclass::MNM_Origin_Multiclass (TInt ID, TInt max_interval,
                                               TFlt flow_scalar, TInt frequency)
     : MNM_Origin::MNM_Origin (ID, max_interval, flow_scalar, frequency)
 {
-  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
+  m_demand_car = MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> ();
+  m_demand_truck = MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> ();
   m_adaptive_ratio_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_adaptive_ratio_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_car_label_ratio = std::vector<TFlt> ();
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..62ec287 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -422,8 +422,8 @@ public:
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
   // two new unordered_map for both classes
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
+  MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> m_demand_car;
+  MNM_Destination_Map<MNM_Destination_Multiclass, TFlt *> m_demand_truck;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_truck;
 
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..39c9cd3 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2506,12 +2506,12 @@ MNM_Origin_Multimodal::MNM_Origin_Multimodal (TInt ID, TInt max_interval,
     : MNM_Origin_Multiclass::MNM_Origin_Multiclass (ID, max_interval,
                                                     flow_scalar, frequency)
 {
-  m_demand_bus = std::unordered_map<MNM_Destination_Multimodal *,
-                                    std::unordered_map<TInt, TFlt *>> ();
+  m_demand_bus = MNM_Destination_Map<MNM_Destination_Multimodal,
+                                     std::unordered_map<TInt, TFlt *>> ();
   m_demand_pnr_car
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+    = MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *> ();
   m_demand_passenger_bus
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+    = MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *> ();
   m_walking_out_links_vec = std::vector<MNM_Walking_Link *> ();
   m_in_passenger_queue = std::deque<MNM_Passenger *> ();
   m_pickup_waiting_time = pickup_waiting_time;
diff --git a/src/multimodal.h b/src/multimodal.h
index a9e51b3..9e14cbe 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -430,13 +430,13 @@ public:
                                      TFlt *demand_passenger_bus);
 
   // <Destination node, <routeID, time-varying demand>>
-  std::unordered_map<MNM_Destination_Multimodal *,
-                     std::unordered_map<TInt, TFlt *>>
+  MNM_Destination_Map<MNM_Destination_Multimodal,
+                      std::unordered_map<TInt, TFlt *>>
     m_demand_bus;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *> m_demand_pnr_car;
+  MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *> m_demand_pnr_car;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *>
+  MNM_Destination_Map<MNM_Destination_Multimodal, TFlt *>
     m_demand_passenger_bus;
 
   std::deque<MNM_Passenger *> m_in_passenger_queue;
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..de2d5ab 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -1,6 +1,13 @@
 #include "od.h"
 #include "routing.h"
 
+bool
+MNM_Destination_ID_Less::operator() (const MNM_Destination *a,
+                                     const MNM_Destination *b) const
+{
+  return a->m_Dest_ID < b->m_Dest_ID;
+}
+
 MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
                         TInt frequency)
 {
@@ -14,8 +21,7 @@ MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
     }
   m_frequency = frequency;
   m_demand
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying demand
+    = MNM_Destination_Map<MNM_Destination, TFlt *> (); // destination node, time-varying demand
   m_adaptive_ratio
     = std::unordered_map<MNM_Destination *,
                          TFlt *> (); // destination node, time-varying adaptive ratio
diff --git a/src/od.h b/src/od.h
index db1ef5d..891b243 100644
--- a/src/od.h
+++ b/src/od.h
@@ -4,6 +4,7 @@
 #include "dnode.h"
 #include "factory.h"
 #include "ults.h"
+#include <map>
 #include <unordered_map>
 #include <vector>
 
@@ -15,6 +16,16 @@ class MNM_DMOND;
 class MNM_DMDND;
 class MNM_Routing;
 
+// Demand is released in the order of the destination IDs, so that the result of
+// a simulation does not depend on where its objects happen to be allocated.
+struct MNM_Destination_ID_Less
+{
+  bool operator() (const MNM_Destination *a, const MNM_Destination *b) const;
+};
+
+template <typename Dest, typename Value>
+using MNM_Destination_Map = std::map<Dest *, Value, MNM_Destination_ID_Less>;
+
 class MNM_Origin
 {
 public:
@@ -46,7 +57,7 @@ public:
   TInt m_current_assign_interval;
   TInt m_max_assign_interval;
   TFlt m_flow_scalar;
-  std::unordered_map<MNM_Destination *, TFlt *> m_demand;
+  MNM_Destination_Map<MNM_Destination, TFlt *> m_demand;
   std::unordered_map<MNM_Destination *, TFlt *> m_adaptive_ratio;
 
   std::vector<TFlt> m_vehicle_label_ratio;
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 47d6e0d..913749d 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -33,7 +33,7 @@ MNM_Pre_Routing::MNM_Pre_Routing (Path_Table *path_table,
           _origin_node_ID = _o_it->second->m_origin_node->m_node_ID;
           //-----
           int size_demand = _o_it->second->m_max_assign_interval;
-          std::unordered_map<MNM_Destination *, TFlt *>::const_iterator
+          MNM_Destination_Map<MNM_Destination, TFlt *>::const_iterator
             demand_it
             = _o_it->second->m_demand.find (_d_it->second);
           if (demand_it != _o_it->second->m_demand.end ())
-- 
2.43.0


From 5aa21d484f31fc5ed9d321a23295e9c2fdde069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 02/43] fix: shuffle charging station in-links with the seeded
 generator

---
 src/ev_traffic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 0a9f22f..b747c5b 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -566,8 +566,8 @@ MNM_Charging_Station::evolve (TInt timestamp)
     }
 
   // shuffle the in links, reserve the FIFO
-  std::random_device rng; // random sequence
-  std::shuffle (_in_link_ind_array.begin (), _in_link_ind_array.end (), rng);
+  std::random_shuffle (_in_link_ind_array.begin (),
+                       _in_link_ind_array.end ()); // random sequence
 
   // move all in_link vehicles to queue, assuming unlimited waiting space
   for (size_t i : _in_link_ind_array)
-- 
2.43.0


From 0304a21a1733c1999f1fc61539119b5f462814e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 03/43] fix: report charging station and EV routing errors as
 exceptions instead of exiting

---
 src/ev_traffic.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index b747c5b..1743091 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -586,7 +586,8 @@ MNM_Charging_Station::evolve (TInt timestamp)
                       "node %d, next link ID is: %d\n",
                       _in_link->m_link_ID, m_node_ID,
                       (*_veh_it)->get_next_link ()->m_link_ID);
-              exit (-1);
+              throw std::runtime_error (
+                "vehicle in the wrong node, no exit");
             }
           auto _veh = dynamic_cast<MNM_Veh_Electrified *> (*_veh_it);
           if (_veh == nullptr || _veh->m_type != MNM_TYPE_ADAPTIVE
@@ -2115,8 +2116,8 @@ MNM_Dta_EV::is_ok ()
     }
   else
     {
-      printf ("Must use MNM_Routing_Hybrid_With_EV for m_routing\n");
-      exit (-1);
+      throw std::runtime_error (
+        "must use MNM_Routing_Hybrid_EV for m_routing");
     }
   _flag = _flag && _temp_flag;
   if (_temp_flag)
-- 
2.43.0


From 720019aa75858a042d47b1edb05ac68fb6c19e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 04/43] fix: an OD pair's adaptive ratio no longer carries over
 to later OD pairs and classes

The per-OD override was written into the function's parameter, so every
destination (and the trucks and park-and-ride demand) released after an
overridden pair used that pair's ratio instead of its own default.
---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/multimodal.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 3 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 0516883..7142d15 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3081,19 +3081,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3102,7 +3103,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3130,19 +3131,20 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3151,7 +3153,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3196,19 +3198,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3217,7 +3220,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3245,19 +3248,20 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3266,7 +3270,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 39c9cd3..fe7be60 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2675,8 +2675,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2685,13 +2686,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2700,7 +2701,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2727,8 +2728,9 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2737,13 +2739,13 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2752,7 +2754,7 @@ MNM_Origin_Multimodal::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2882,8 +2884,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_car.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio_car;
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2892,13 +2895,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2907,7 +2910,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -2934,8 +2937,9 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio_truck;
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
@@ -2944,13 +2948,13 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
 
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1),
                                                      TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh = _vfactory->make_veh_multimodal (current_interval,
                                                      MNM_TYPE_ADAPTIVE,
@@ -2959,7 +2963,7 @@ MNM_Origin_Multimodal::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multimodal (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index de2d5ab..3bc84c9 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -143,18 +143,19 @@ MNM_Origin::release_one_interval (TInt current_interval,
        _demand_it++)
     {
       // override adaptive ratio with time-dependent and OD-dependent one in input file
+      TFlt _adaptive_ratio = adaptive_ratio;
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -162,7 +163,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 04dd0d4687a80a2c15e41479479594b3e0941da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:45 +0000
Subject: [PATCH 05/43] fix: reject link and interval arrays that are not
 one-dimensional in path travel time queries

---
 macposts/_ext/dta.cpp   |  8 ++++++--
 macposts/_ext/mcdta.cpp | 32 ++++++++++++++++++++++++--------
 macposts/_ext/mmdta.cpp | 16 ++++++++++++----
 3 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..33fe985 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1898,9 +1898,13 @@ py::array_t<double>
 Dta::get_path_tt (py::array_t<int> link_IDs, py::array_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Dta::get_path_tt, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
 
   int new_shape[2] = { 2, num_int };
   // the output is an array with size of 2 * num_int
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..448ac59 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1499,9 +1499,13 @@ Mcdta::get_avg_link_on_path_tt_car (py::array_t<int> link_IDs,
                                     py::array_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_avg_link_on_path_tt_car, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
   int num_link = links_buf.shape[0];
 
   int new_shape[1] = { num_link };
@@ -1561,9 +1565,13 @@ Mcdta::get_avg_link_on_path_tt_truck (py::array_t<int> link_IDs,
                                       py::array_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_avg_link_on_path_tt_truck, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
   int num_link = links_buf.shape[0];
 
   int new_shape[1] = { num_link };
@@ -1623,9 +1631,13 @@ Mcdta::get_path_tt_car (py::array_t<int> link_IDs,
                         py::array_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_path_tt_car, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
 
   int new_shape[2] = { 2, num_int };
   // the output is an array with size of 2 * num_int
@@ -1693,9 +1705,13 @@ Mcdta::get_path_tt_truck (py::array_t<int> link_IDs,
                           py::array_t<int> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_path_tt_truck, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
 
   int new_shape[2] = { 2, num_int };
   // the output is an array with size of 2 * num_int
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 2e53844..453eee0 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4383,9 +4383,13 @@ Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
                         py::array_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Mmdta::get_path_tt_car, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
   int num_link = links_buf.shape[0];
 
   int new_shape[1] = { num_link };
@@ -4443,9 +4447,13 @@ Mmdta::get_path_tt_truck (py::array_t<int> link_IDs,
                           py::array_t<double> start_intervals)
 {
   auto start_buf = start_intervals.request ();
-  int num_int = start_buf.shape[0];
-
   auto links_buf = link_IDs.request ();
+  if (start_buf.ndim != 1 || links_buf.ndim != 1)
+    {
+      throw std::runtime_error (
+        "Error, Mmdta::get_path_tt_truck, input dimension mismatch");
+    }
+  int num_int = start_buf.shape[0];
   int num_link = links_buf.shape[0];
 
   int new_shape[1] = { num_link };
-- 
2.43.0


From 5e43b12605b29d4a83005527c32acf2d48861430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:45 +0000
Subject: [PATCH 06/43] fix: reject empty link sequences instead of reading
 before the first link

---
 macposts/_ext/mmdta.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 453eee0..eb2398b 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -3471,7 +3471,7 @@ py::array_t<int>
 Mmdta::link_seq_to_node_seq_driving (py::array_t<int> link_IDs)
 {
   auto links_buf = link_IDs.request ();
-  if (links_buf.ndim != 1)
+  if (links_buf.ndim != 1 || links_buf.shape[0] < 1)
     {
       throw std::runtime_error (
         "Error, Mmdta::link_seq_to_node_seq_driving, link_IDs input "
@@ -3500,7 +3500,7 @@ py::array_t<int>
 Mmdta::link_seq_to_node_seq_bustransit (py::array_t<int> link_IDs)
 {
   auto links_buf = link_IDs.request ();
-  if (links_buf.ndim != 1)
+  if (links_buf.ndim != 1 || links_buf.shape[0] < 1)
     {
       throw std::runtime_error (
         "Error, Mmdta::link_seq_to_node_seq_bustransit, link_IDs input "
@@ -3637,7 +3637,7 @@ Mmdta::get_passenger_path_cost_driving (py::array_t<int> link_IDs,
   double *start_ptr = (double *) start_buf.ptr;
 
   auto links_buf = link_IDs.request ();
-  if (links_buf.ndim != 1)
+  if (links_buf.ndim != 1 || links_buf.shape[0] < 1)
     {
       throw std::runtime_error (
         "Error, Mmdta::get_passenger_path_cost_driving, link_IDs input "
@@ -3715,7 +3715,7 @@ Mmdta::get_passenger_path_cost_bus (py::array_t<int> link_IDs,
   double *start_ptr = (double *) start_buf.ptr;
 
   auto links_buf = link_IDs.request ();
-  if (links_buf.ndim != 1)
+  if (links_buf.ndim != 1 || links_buf.shape[0] < 1)
     {
       throw std::runtime_error (
         "Error, Mmdta::get_passenger_path_cost_bus, link_IDs input "
@@ -3787,7 +3787,7 @@ Mmdta::get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
   double *start_ptr = (double *) start_buf.ptr;
 
   auto links_buf_driving = link_IDs_driving.request ();
-  if (links_buf_driving.ndim != 1)
+  if (links_buf_driving.ndim != 1 || links_buf_driving.shape[0] < 1)
     {
       throw std::runtime_error (
         "Error, Mmdta::get_passenger_path_cost_pnr, link_IDs_driving input "
@@ -3797,7 +3797,7 @@ Mmdta::get_passenger_path_cost_pnr (py::array_t<int> link_IDs_driving,
   int *links_ptr_driving = (int *) links_buf_driving.ptr;
 
   auto links_buf_bustransit = link_IDs_bustransit.request ();
-  if (links_buf_bustransit.ndim != 1)
+  if (links_buf_bustransit.ndim != 1 || links_buf_bustransit.shape[0] < 1)
     {
       throw std::runtime_error (
         "Error, Mmdta::get_passenger_path_cost_pnr, link_IDs_bustransit "
-- 
2.43.0


From 0100a3c928a78ff35a735c9a250d1084700d9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:35 +0000
Subject: [PATCH 07/43] fix: reject path flow arrays shorter than the
 assignment matrix they scale

---
 macposts/_ext/dta.cpp   |  5 +++++
 macposts/_ext/mcdta.cpp | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 33fe985..13cf06d 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -2167,6 +2167,11 @@ Dta::save_dar_matrix (py::array_t<int> start_intervals,
               _y = tmp_record->path_ID
                    + _num_path
                        * tmp_record->assign_int; // # of paths * # of intervals
+              if (_y >= f_buf.shape[0])
+                {
+                  throw std::runtime_error (
+                    "Error, Dta::save_dar_matrix, input path flow mismatch");
+                }
               _str = std::to_string (_x) + ",";
               _str += std::to_string (_y) + ",";
               _str += std::to_string (tmp_record->flow / f_ptr[_y]) + "\n";
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 448ac59..175cb60 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -3428,6 +3428,11 @@ Mcdta::save_car_dar_matrix (py::array_t<int> start_intervals,
               _y = tmp_record->path_ID
                    + _num_path
                        * tmp_record->assign_int; // # of paths * # of intervals
+              if (_y >= f_buf.shape[0])
+                {
+                  throw std::runtime_error (
+                    "Error, Mcdta::save_car_dar_matrix, input path flow mismatch");
+                }
               _str = std::to_string (_x) + ",";
               _str += std::to_string (_y) + ",";
               _str += std::to_string (tmp_record->flow / f_ptr[_y]) + "\n";
@@ -3541,6 +3546,11 @@ Mcdta::save_truck_dar_matrix (py::array_t<int> start_intervals,
               _y = tmp_record->path_ID
                    + _num_path
                        * tmp_record->assign_int; // # of paths * # of intervals
+              if (_y >= f_buf.shape[0])
+                {
+                  throw std::runtime_error (
+                    "Error, Mcdta::save_truck_dar_matrix, input path flow mismatch");
+                }
               _str = std::to_string (_x) + ",";
               _str += std::to_string (_y) + ",";
               _str += std::to_string (tmp_record->flow / f_ptr[_y]) + "\n";
-- 
2.43.0


From 8515c4e62e9c12b74a06647d31162c465f74fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:47 +0000
Subject: [PATCH 08/43] fix: a missing link in a node sequence is reported
 instead of returned as garbage

---
 macposts/_ext/mmdta.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index eb2398b..0bec2eb 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -3551,6 +3551,7 @@ Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
 
   for (int i = 0; i < m - 1; ++i)
     {
+      result_ptr[i] = -1;
       for (const auto &l :
            m_mmdta->m_graph.connections (nodes_ptr[i], Direction::Outgoing))
         {
@@ -3599,6 +3600,7 @@ Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
 
   for (int i = 0; i < m - 1; ++i)
     {
+      result_ptr[i] = -1;
       for (const auto &l :
            m_mmdta->m_bus_transit_graph.connections (nodes_ptr[i],
                                                      Direction::Outgoing))
-- 
2.43.0


From d0fd28c9fdde36e0ec7f72d6d2cd076b4a08daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:13 +0000
Subject: [PATCH 09/43] fix: the origin column of the mode connectivity table
 is filled for every OD pair

---
 macposts/_ext/mmdta.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 0bec2eb..441b49f 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4888,9 +4888,9 @@ Mmdta::get_od_mode_connectivity ()
   int i = 0;
   for (const auto &_o_it : m_mmdue->m_od_mode_connectivity)
     {
-      result_ptr[i * _num_col] = _o_it.first;
       for (const auto &_d_it : _o_it.second)
         {
+          result_ptr[i * _num_col] = _o_it.first;
           result_ptr[i * _num_col + 1] = _d_it.first;
           for (auto _mode_it : _d_it.second)
             {
-- 
2.43.0


From d81e87ed1b0b0612e3c22afc7b4ee2f302734d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 10/43] fix: reject negative start times instead of reading
 before the travel time tables

---
 src/dta_gradient_utls.cpp | 10 ++++++++++
 src/multimodal.cpp        | 16 ++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/dta_gradient_utls.cpp b/src/dta_gradient_utls.cpp
index d690ee3..31d3a63 100644
--- a/src/dta_gradient_utls.cpp
+++ b/src/dta_gradient_utls.cpp
@@ -305,6 +305,11 @@ get_path_travel_time (MNM_Path *path, TFlt start_time,
     {
       throw std::runtime_error ("Error, get_path_travel_time path is null");
     }
+  if (start_time < 0)
+    {
+      throw std::runtime_error (
+        "Error, get_path_travel_time start time is negative");
+    }
   int _cur_time = int (round (start_time));
   for (TInt _link_ID : path->m_link_vec)
     {
@@ -327,6 +332,11 @@ get_path_travel_cost (MNM_Path *path, TFlt start_time,
     {
       throw std::runtime_error ("Error, get_path_travel_time path is null");
     }
+  if (start_time < 0)
+    {
+      throw std::runtime_error (
+        "Error, get_path_travel_cost start time is negative");
+    }
   int _cur_time = int (round (start_time));
   TFlt _cost = 0.;
   for (TInt _link_ID : path->m_link_vec)
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index fe7be60..7287335 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -11641,6 +11641,12 @@ MNM_Passenger_Path_Driving::get_travel_time_truck (
   TFlt start_time, MNM_Dta_Multimodal *mmdta,
   std::unordered_map<TInt, TFlt *> link_tt_map_truck)
 {
+  if (start_time < 0)
+    {
+      throw std::runtime_error (
+        "Error, MNM_Passenger_Path_Driving::get_travel_time_truck start time "
+        "is negative");
+    }
   MNM_Dlink *_link;
   int arrival_time = int (round (start_time));
   for (TInt _link_ID : m_path->m_link_vec)
@@ -11716,6 +11722,11 @@ MNM_Passenger_Path_Driving::get_travel_time (
   std::unordered_map<TInt, TFlt *> driving_link_tt_map,
   std::unordered_map<TInt, TFlt *> bustransit_link_tt_map)
 {
+  if (start_time < 0)
+    {
+      throw std::runtime_error (
+        "Error, MNM_Passenger_Path_Driving::get_travel_time start time is negative");
+    }
   int arrival_time
     = int (round (start_time))
       + int (ceil (m_walking_time_before_driving / mmdta->m_unit_time));
@@ -11950,6 +11961,11 @@ MNM_Passenger_Path_Bus::get_travel_time (
   std::unordered_map<TInt, TFlt *> driving_link_tt_map,
   std::unordered_map<TInt, TFlt *> bustransit_link_tt_map)
 {
+  if (start_time < 0)
+    {
+      throw std::runtime_error (
+        "Error, MNM_Passenger_Path_Bus::get_travel_time start time is negative");
+    }
   int arrival_time = int (round (start_time));
   IAssert (mmdta->m_current_loading_interval > 0);
   for (auto _link_ID : m_path->m_link_vec)
-- 
2.43.0


From 51b3ccd22fed049e4747738c0d8d67eee69a6e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:52 +0000
Subject: [PATCH 11/43] fix: silence no longer swallows exceptions when the
 file descriptor is invalid

---
 macposts/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/macposts/utils.py b/macposts/utils.py
index f966690..4b2b063 100644
--- a/macposts/utils.py
+++ b/macposts/utils.py
@@ -28,10 +28,8 @@ def silence(fd=STDOUT_FD):
     try:
         os.fstat(fd)
     except Exception:
-        try:
-            yield
-        finally:
-            return
+        yield
+        return
 
     save = os.dup(fd)
     null = os.open(os.devnull, os.O_RDWR)
-- 
2.43.0


From 8521fc0d2ff97a40ff4acf0679734d99626b7c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:52 +0000
Subject: [PATCH 12/43] fix: travel time from the fundamental diagram reports
 missing curves instead of crashing

---
 src/dta_gradient_utls.cpp |  6 ++++++
 src/multiclass.cpp        | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/dta_gradient_utls.cpp b/src/dta_gradient_utls.cpp
index 31d3a63..a56fe26 100644
--- a/src/dta_gradient_utls.cpp
+++ b/src/dta_gradient_utls.cpp
@@ -203,6 +203,12 @@ get_travel_time_from_cc (TFlt start_time, MNM_Cumulative_Curve *N_in,
 TFlt
 get_travel_time_from_FD (MNM_Dlink *link, TFlt start_time, TFlt unit_interval)
 {
+  if (link->m_N_in == nullptr)
+    {
+      throw std::runtime_error (
+        "Error, get_travel_time_from_FD link cumulative curve is not "
+        "installed");
+    }
   TFlt _flow = link->m_N_in->get_result (start_time)
                - link->m_N_out->get_result (start_time);
   if (_flow < 0.)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 7142d15..8b41bc2 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4777,6 +4777,12 @@ TFlt
 get_travel_time_from_FD_car (MNM_Dlink_Multiclass *link, TFlt start_time,
                              TFlt unit_interval)
 {
+  if (link->m_N_in_car == nullptr)
+    {
+      throw std::runtime_error (
+        "Error, get_travel_time_from_FD_car link cumulative curve is not "
+        "installed");
+    }
   TFlt _flow = link->m_N_in_car->get_result (start_time)
                - link->m_N_out_car->get_result (start_time);
   if (_flow < 0.)
@@ -4789,6 +4795,12 @@ TFlt
 get_travel_time_from_FD_truck (MNM_Dlink_Multiclass *link, TFlt start_time,
                                TFlt unit_interval)
 {
+  if (link->m_N_in_truck == nullptr)
+    {
+      throw std::runtime_error (
+        "Error, get_travel_time_from_FD_truck link cumulative curve is not "
+        "installed");
+    }
   TFlt _flow = link->m_N_in_truck->get_result (start_time)
                - link->m_N_out_truck->get_result (start_time);
   if (_flow < 0.)
-- 
2.43.0


From a810ae87bffe2e582bd3c0c436618e1a872f2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:52 +0000
Subject: [PATCH 13/43] fix: read the links and intervals of per-link queue
 queries as the integers they are

---
 macposts/_ext/mmdta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 441b49f..62632be 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -6775,8 +6775,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
@@ -6827,8 +6827,8 @@ Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
-- 
2.43.0


From 50cddf607897a4b39e8e410bf9156949aab3de48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:04 +0000
Subject: [PATCH 14/43] fix: per-link queue queries reject negative intervals

---
 macposts/_ext/mcdta.cpp | 3 ++-
 macposts/_ext/mmdta.cpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 175cb60..a9d2b95 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -3126,7 +3126,8 @@ Mcdta::get_queue_veh_each_link (py::array_t<int> useful_links,
 
   for (int t = 0; t < num_intervals; ++t)
     {
-      if (intervals_ptr[t] >= get_cur_loading_interval ())
+      if (intervals_ptr[t] < 0
+          || intervals_ptr[t] >= get_cur_loading_interval ())
         {
           throw std::runtime_error (
             "Error, Mcdta::get_queue_veh_each_link, input start intervals "
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 62632be..4e69890 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -6780,7 +6780,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
 
   for (int t = 0; t < num_intervals; ++t)
     {
-      if (intervals_ptr[t] >= get_cur_loading_interval ())
+      if (intervals_ptr[t] < 0
+          || intervals_ptr[t] >= get_cur_loading_interval ())
         {
           throw std::runtime_error (
             "Error, Mmdta::get_queue_veh_each_link, input intervals "
@@ -6832,7 +6833,8 @@ Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
 
   for (int t = 0; t < num_intervals; ++t)
     {
-      if (intervals_ptr[t] >= get_cur_loading_interval ())
+      if (intervals_ptr[t] < 0
+          || intervals_ptr[t] >= get_cur_loading_interval ())
         {
           throw std::runtime_error (
             "Error, Mmdta::get_queue_passenger_each_link, input intervals "
-- 
2.43.0


From 4979f4a23d628a08d9d3c03e6b8bd96533dae650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:00 +0000
Subject: [PATCH 15/43] fix: shortest-path queries reject unknown origins,
 destinations and OD pairs

---
 macposts/_ext/mcdta.cpp | 12 +++++++++++-
 macposts/_ext/mmdta.cpp | 13 ++++++++-----
 macposts/_ext/tdsp.cpp  |  7 +++++--
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index a9d2b95..1baaafc 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1350,8 +1350,18 @@ Mcdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
       _path_set
         = _path_table->find (o_node_ID)->second->find (d_node_ID)->second;
     }
-  Assert (_path_set != nullptr);
+  if (_path_set == nullptr)
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_lowest_cost_path, no such OD pair");
+    }
 
+  if (m_tdsp_tree_map.find (d_node_ID) == m_tdsp_tree_map.end ())
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_lowest_cost_path, no shortest path tree for this "
+        "destination");
+    }
   _tdsp_tree = m_tdsp_tree_map.find (d_node_ID)->second;
 
   for (int i = start_interval; i < start_interval + 1; ++i)
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 4e69890..6b76074 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4579,11 +4579,14 @@ Mmdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
   IAssert (start_interval
            < m_mmdue->m_total_assign_inter
                * m_mmdue->m_mmdta_config->get_int ("assign_frq"));
-  IAssert (
-    m_mmdue->m_passenger_demand.find (o_node_ID)
-      != m_mmdue->m_passenger_demand.end ()
-    && m_mmdue->m_passenger_demand.find (o_node_ID)->second.find (d_node_ID)
-         != m_mmdue->m_passenger_demand.find (o_node_ID)->second.end ());
+  if (m_mmdue->m_passenger_demand.find (o_node_ID)
+        == m_mmdue->m_passenger_demand.end ()
+      || m_mmdue->m_passenger_demand.find (o_node_ID)->second.find (d_node_ID)
+           == m_mmdue->m_passenger_demand.find (o_node_ID)->second.end ())
+    {
+      throw std::runtime_error (
+        "Error, Mmdta::get_lowest_cost_path, no such OD pair");
+    }
 
   MNM_Passenger_Path_Base *_p_path;
   MNM_Path *_path;
diff --git a/macposts/_ext/tdsp.cpp b/macposts/_ext/tdsp.cpp
index 42f49ad..0323fa3 100644
--- a/macposts/_ext/tdsp.cpp
+++ b/macposts/_ext/tdsp.cpp
@@ -315,8 +315,11 @@ Tdsp::extract_tdsp (int origin_node_ID, int timestamp)
   MNM_Path *_path;
   std::string _str;
 
-  IAssert (m_tdsp_tree->m_dist.find (origin_node_ID)
-           != m_tdsp_tree->m_dist.end ());
+  if (m_tdsp_tree->m_dist.find (origin_node_ID) == m_tdsp_tree->m_dist.end ())
+    {
+      throw std::runtime_error (
+        "Error, Tdsp::extract_tdsp, origin node does not exist");
+    }
   Assert (m_tdsp_tree->m_dist[origin_node_ID] != nullptr);
 
   printf ("get travel cost to dest\n");
-- 
2.43.0


From 9a6b93f40a7f665380f80808178e58605fbe0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:05 +0000
Subject: [PATCH 16/43] fix: path queries and travel time gradients reject
 negative intervals

---
 macposts/_ext/mcdta.cpp | 13 +++++++++----
 macposts/_ext/mmdta.cpp |  9 +++++++--
 macposts/_ext/tdsp.cpp  |  6 +++++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 1baaafc..236151c 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1326,6 +1326,11 @@ Mcdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
 
   // IAssert(start_interval < m_mcdta -> m_config -> get_int("max_interval") *
   // m_mcdta -> m_config -> get_int("assign_frq"));
+  if (start_interval < 0)
+    {
+      throw std::runtime_error (
+        "Error, Mcdta::get_lowest_cost_path, negative start interval");
+    }
 
   TFlt _cur_best_cost = TFlt (std::numeric_limits<double>::infinity ());
   TInt _cur_best_time = -1;
@@ -3865,7 +3870,7 @@ Mcdta::get_car_ltg_matrix (py::array_t<int> start_intervals,
       for (int t = 0; t < l; ++t)
         {
           // printf("Current processing time: %d\n", t);
-          if (start_ptr[t] >= get_cur_loading_interval ())
+          if (start_ptr[t] < 0 || start_ptr[t] >= get_cur_loading_interval ())
             {
               throw std::runtime_error (
                 "Error, Mcdta::get_car_ltg_matrix_driving, input start "
@@ -4182,7 +4187,7 @@ Mcdta::get_truck_ltg_matrix (py::array_t<int> start_intervals,
       for (int t = 0; t < l; ++t)
         {
           // printf("Current processing time: %d\n", t);
-          if (start_ptr[t] >= get_cur_loading_interval ())
+          if (start_ptr[t] < 0 || start_ptr[t] >= get_cur_loading_interval ())
             {
               throw std::runtime_error (
                 "Error, Mcdta::get_truck_ltg_matrix, input start intervals "
@@ -4509,7 +4514,7 @@ Mcdta::get_complete_car_ltg_matrix (py::array_t<int> start_intervals,
       for (int t = 0; t < l; ++t)
         {
           // printf("Current processing time: %d\n", t);
-          if (start_ptr[t] >= get_cur_loading_interval ())
+          if (start_ptr[t] < 0 || start_ptr[t] >= get_cur_loading_interval ())
             {
               throw std::runtime_error (
                 "Error, Mcdta::get_complete_truck_ltg_matrix, input start "
@@ -4843,7 +4848,7 @@ Mcdta::get_complete_truck_ltg_matrix (py::array_t<int> start_intervals,
       for (int t = 0; t < l; ++t)
         {
           // printf("Current processing time: %d\n", t);
-          if (start_ptr[t] >= get_cur_loading_interval ())
+          if (start_ptr[t] < 0 || start_ptr[t] >= get_cur_loading_interval ())
             {
               throw std::runtime_error (
                 "Error, Mcdta::get_complete_truck_ltg_matrix, input start "
diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 6b76074..cbadbbe 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4579,6 +4579,11 @@ Mmdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
   IAssert (start_interval
            < m_mmdue->m_total_assign_inter
                * m_mmdue->m_mmdta_config->get_int ("assign_frq"));
+  if (start_interval < 0)
+    {
+      throw std::runtime_error (
+        "Error, Mmdta::get_lowest_cost_path, negative start interval");
+    }
   if (m_mmdue->m_passenger_demand.find (o_node_ID)
         == m_mmdue->m_passenger_demand.end ()
       || m_mmdue->m_passenger_demand.find (o_node_ID)->second.find (d_node_ID)
@@ -8106,7 +8111,7 @@ Mmdta::get_car_ltg_matrix_driving (py::array_t<int> start_intervals,
       for (int t = 0; t < l; ++t)
         {
           // printf("Current processing time: %d\n", t);
-          if (start_ptr[t] >= get_cur_loading_interval ())
+          if (start_ptr[t] < 0 || start_ptr[t] >= get_cur_loading_interval ())
             {
               throw std::runtime_error (
                 "Error, Mmdta::get_car_ltg_matrix_driving, input start "
@@ -8479,7 +8484,7 @@ Mmdta::get_truck_ltg_matrix_driving (py::array_t<int> start_intervals,
       for (int t = 0; t < l; ++t)
         {
           // printf("Current processing time: %d\n", t);
-          if (start_ptr[t] >= get_cur_loading_interval ())
+          if (start_ptr[t] < 0 || start_ptr[t] >= get_cur_loading_interval ())
             {
               throw std::runtime_error (
                 "Error, Mmdta::get_truck_ltg_matrix_driving, input start "
diff --git a/macposts/_ext/tdsp.cpp b/macposts/_ext/tdsp.cpp
index 0323fa3..dbcfa09 100644
--- a/macposts/_ext/tdsp.cpp
+++ b/macposts/_ext/tdsp.cpp
@@ -310,7 +310,11 @@ Tdsp::build_tdsp_tree (int dest_node_ID)
 py::array_t<double>
 Tdsp::extract_tdsp (int origin_node_ID, int timestamp)
 {
-  IAssert (timestamp < m_max_interval && timestamp >= 0);
+  if (timestamp < 0 || timestamp >= m_max_interval)
+    {
+      throw std::runtime_error (
+        "Error, Tdsp::extract_tdsp, timestamp outside the loaded intervals");
+    }
   TFlt tmp_cost;
   MNM_Path *_path;
   std::string _str;
-- 
2.43.0


From bb892002bc706aa930d2339cd6967b2371b4f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:57 +0000
Subject: [PATCH 17/43] fix: the snapshot path query rejects unknown OD pairs

---
 src/multimodal.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 7287335..3673437 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -17126,9 +17126,13 @@ MNM_MM_Due::get_lowest_cost_path_snapshot (int start_interval, int o_node_ID,
 {
   // get lowest cost path departing at start_interval snapshot
 
-  IAssert (m_passenger_demand.find (o_node_ID) != m_passenger_demand.end ()
-           && m_passenger_demand.find (o_node_ID)->second.find (d_node_ID)
-                != m_passenger_demand.find (o_node_ID)->second.end ());
+  if (m_passenger_demand.find (o_node_ID) == m_passenger_demand.end ()
+      || m_passenger_demand.find (o_node_ID)->second.find (d_node_ID)
+           == m_passenger_demand.find (o_node_ID)->second.end ())
+    {
+      throw std::runtime_error (
+        "Error, MNM_MM_Due::get_lowest_cost_path_snapshot, no such OD pair");
+    }
 
   int _assign_inter
     = (int) start_interval / m_mmdta_config->get_int ("assign_frq");
-- 
2.43.0


From 924c1b27592b2bb1d50bf2c5abe1ff20aad92342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:59 +0000
Subject: [PATCH 18/43] fix: reject input files that end before the announced
 number of records

The readers looped on getline without looking at the stream: a truncated file
made them spin forever (comment-skipping loops) or read the last line again.
---
 src/delivery_traffic.cpp | 12 ++++++------
 src/ev_traffic.cpp       |  6 +++---
 src/io.cpp               | 42 ++++++++++++++++++++--------------------
 src/io.h                 | 10 ++++++++++
 src/multiclass.cpp       | 12 ++++++------
 src/multimodal.cpp       | 42 ++++++++++++++++++++--------------------
 6 files changed, 67 insertions(+), 57 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index 888993e..fb91a7f 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -563,7 +563,7 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           // O_ID, node_ID, (pickup_waiting_time)
           if (_words.size () == 2 || _words.size () == 3)
@@ -600,7 +600,7 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
       // printf("Processing Destination node.\n");
       for (int i = 0; i < _num_of_D; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           if (_words.size () == 2)
             {
@@ -662,7 +662,7 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           // O_ID, node_ID, (pickup_waiting_time)
           if (_words.size () == 2 || _words.size () == 3)
@@ -694,7 +694,7 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
       // printf("Processing Destination node.\n");
       for (int i = 0; i < _num_of_D; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           if (_words.size () == 2)
             {
@@ -762,8 +762,8 @@ MNM_IO_Delivery::build_demand_multi_OD_seq (const std::string &file_folder,
       std::getline (_demand_file, _line2); // skip the first line
       for (int i = 0; i < _num_multiOD; ++i)
         {
-          std::getline (_od_file, _line1);
-          std::getline (_demand_file, _line2);
+          MNM_IO::next_line (_od_file, _line1);
+          MNM_IO::next_line (_demand_file, _line2);
           // std::cout << "Processing: " << _line1 << "\n";
 
           // od sequence
diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 1743091..01886d4 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -1597,7 +1597,7 @@ MNM_IO_EV::build_od_factory_ev (const std::string &file_folder,
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           // O_ID, node_ID, (pickup_waiting_time (seconds),
           // roadside_charging_ratio)
@@ -1641,7 +1641,7 @@ MNM_IO_EV::build_od_factory_ev (const std::string &file_folder,
       // printf("Processing Destination node.\n");
       for (int i = 0; i < _num_of_D; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           if (_words.size () == 2)
             {
@@ -1703,7 +1703,7 @@ MNM_IO_EV::add_charging_station_node (const std::string &file_folder,
                                    // avg_charging_time avg_waiting_time price
       for (int i = 0; i < _num_of_charging_station; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _words = split (_line, ' ');
           if (TInt (_words.size ()) == 5)
diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..23aa39a 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -28,7 +28,7 @@ MNM_IO::build_node_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          MNM_IO::next_line (_node_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -109,7 +109,7 @@ MNM_IO::build_link_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          MNM_IO::next_line (_link_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -209,7 +209,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -235,7 +235,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -288,7 +288,7 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -313,7 +313,7 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -366,7 +366,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -386,7 +386,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -440,7 +440,7 @@ MNM_IO::read_origin_vehicle_label_ratio (const std::string &file_folder,
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           _words = split (_line, ' ');
           if ((int) _words.size () == 1 + _num_of_vehicle_labels)
             { // check
@@ -554,7 +554,7 @@ MNM_IO::build_graph (const std::string &file_folder,
   std::vector<std::string> _words;
   for (int i = 0; i < _num_of_link;)
     {
-      std::getline (_graph_file, _line);
+      MNM_IO::next_line (_graph_file, _line);
       _line = MNM_IO::trim (_line);
       if (_line.empty () || _line[0] == '#')
         {
@@ -619,7 +619,7 @@ MNM_IO::build_demand (const std::string &file_folder,
       double *_demand_vector = new double[_max_interval]();
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          MNM_IO::next_line (_demand_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -858,7 +858,7 @@ MNM_IO::load_path_table (const std::string &file_name,
     {
       for (int i = 0; i < Num_Path;)
         {
-          std::getline (_path_table_file, _line);
+          MNM_IO::next_line (_path_table_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -869,7 +869,7 @@ MNM_IO::load_path_table (const std::string &file_name,
             {
               while (1)
                 {
-                  std::getline (_buffer_file, _buffer_line);
+                  MNM_IO::next_line (_buffer_file, _buffer_line);
                   _buffer_line = trim (_buffer_line);
                   if (!_line.empty () && _line[0] != '#')
                     {
@@ -979,7 +979,7 @@ MNM_IO::build_vms_facotory (const std::string &file_folder,
       // printf("Start build demand profile.\n");
       for (int i = 0; i < num_vms;)
         {
-          std::getline (_vms_file, _line);
+          MNM_IO::next_line (_vms_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -1024,7 +1024,7 @@ MNM_IO::read_int_float (const std::string &file_name,
       printf ("Total is %d\n", num_record);
       for (int i = 0; i < num_record; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _words = split (_line, ' ');
           if (TInt (_words.size ()) == 2)
@@ -1061,7 +1061,7 @@ MNM_IO::read_int (const std::string &file_name, std::vector<TInt> *reader)
       printf ("Total is %d\n", num_record);
       for (int i = 0; i < num_record; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _int = TInt (std::stoi (trim (_line)));
           reader->push_back (_int);
@@ -1092,7 +1092,7 @@ MNM_IO::read_float (const std::string &file_name, std::vector<TFlt *> *reader)
       printf ("Total is %d\n", num_record);
       for (int i = 0; i < num_record; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           _words = split (_line, ' ');
           _len = TInt (_words.size ());
           _tmp_flt = new double[_len]();
@@ -1130,7 +1130,7 @@ MNM_IO::build_workzone_list (const std::string &file_folder,
       TInt num_workzone = TInt (std::stoi (trim (_line)));
       for (int i = 0; i < num_workzone; ++i)
         {
-          std::getline (_workzone_file, _line);
+          MNM_IO::next_line (_workzone_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _words = split (_line, ' ');
           if (TInt (_words.size ()) == 1)
@@ -1212,7 +1212,7 @@ MNM_IO::build_link_toll (const std::string &file_folder,
       std::getline (_file, _line); // #link_ID toll
       for (int i = 0; i < _num_of_tolled_link; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
 
           _words = split (_line, ' ');
@@ -1286,7 +1286,7 @@ MNM_IO::read_td_link_cost (const std::string &file_folder,
       std::getline (_file, _line); // skip the header
       for (int i = 0; i < num_rows; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _words = split (_line, ' ');
           if (TInt (_words.size ()) == num_timestamps + 1)
@@ -1353,7 +1353,7 @@ MNM_IO::read_td_node_cost (
       std::getline (_file, _line); // skip the header
       for (int i = 0; i < num_rows; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
           _words = split (_line, ' ');
           if (TInt (_words.size ()) == num_timestamps + 3)
diff --git a/src/io.h b/src/io.h
index 796b91a..ea64322 100644
--- a/src/io.h
+++ b/src/io.h
@@ -107,6 +107,16 @@ public:
 
   // private:
   static std::vector<std::string> split (const std::string &text, char sep);
+
+  // read a line that must be there
+  static void inline next_line (std::istream &file, std::string &line)
+  {
+    if (!std::getline (file, line))
+      {
+        throw std::runtime_error ("unexpected end of input file");
+      }
+  }
+
   static std::string inline &ltrim (std::string &s)
   {
     s.erase (s.begin (), std::find_if (s.begin (), s.end (), [] (int c) {
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 8b41bc2..ec25cb6 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3607,7 +3607,7 @@ MNM_IO_Multiclass::build_node_factory_multiclass (
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          MNM_IO::next_line (_node_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3694,7 +3694,7 @@ MNM_IO_Multiclass::build_link_factory_multiclass (
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          MNM_IO::next_line (_link_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3829,7 +3829,7 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
 
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          MNM_IO::next_line (_demand_file, _line);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             continue;
@@ -4032,7 +4032,7 @@ MNM_IO_Multiclass::read_origin_car_label_ratio (const std::string &file_folder,
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           _words = split (_line, ' ');
           if ((int) _words.size () == 1 + _num_of_vehicle_labels)
             { // check
@@ -4089,7 +4089,7 @@ MNM_IO_Multiclass::read_origin_truck_label_ratio (
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           _words = split (_line, ' ');
           if ((int) _words.size () == 1 + _num_of_vehicle_labels)
             { // check
@@ -4143,7 +4143,7 @@ MNM_IO_Multiclass::build_link_toll_multiclass (const std::string &file_folder,
       std::getline (_file, _line); // #link_ID toll_car toll_truck
       for (int i = 0; i < _num_of_tolled_link; ++i)
         {
-          std::getline (_file, _line);
+          MNM_IO::next_line (_file, _line);
           // std::cout << "Processing: " << _line << "\n";
 
           _words = split (_line, ' ');
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 3673437..4a8700c 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -7459,7 +7459,7 @@ MNM_IO_Multimodal::build_od_factory_multimodal (std::string file_folder,
       // printf("Processing Origin node.\n");
       for (int i = 0; i < _num_of_O; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           if (_words.size () == 3)
             {
@@ -7487,7 +7487,7 @@ MNM_IO_Multimodal::build_od_factory_multimodal (std::string file_folder,
       // printf("Processing Destination node.\n");
       for (int i = 0; i < _num_of_D; ++i)
         {
-          std::getline (_od_file, _line);
+          MNM_IO::next_line (_od_file, _line);
           _words = split (_line, ' ');
           if (_words.size () == 2)
             {
@@ -7537,7 +7537,7 @@ MNM_IO_Multimodal::build_node_factory_multimodal (
       std::getline (_node_file, _line); // skip the first line
       for (int i = 0; i < _num_of_node; ++i)
         {
-          std::getline (_node_file, _line);
+          MNM_IO::next_line (_node_file, _line);
           // printf("%d\n", i);
           _words = split (trim (_line), ' ');
           if (_words.size () == 3)
@@ -7633,7 +7633,7 @@ MNM_IO_Multimodal::build_link_factory_multimodal (
       std::getline (_link_file, _line); // skip the first line
       for (int i = 0; i < _num_of_link; ++i)
         {
-          std::getline (_link_file, _line);
+          MNM_IO::next_line (_link_file, _line);
           _words = split (trim (_line), ' ');
           if (_words.size () == 11)
             {
@@ -7756,7 +7756,7 @@ MNM_IO_Multimodal::build_busstop_factory (const std::string &file_folder,
       std::getline (_busstop_file, _line); // skip the first line
       for (int i = 0; i < _num_busstops_physical; ++i)
         {
-          std::getline (_busstop_file, _line);
+          MNM_IO::next_line (_busstop_file, _line);
           _words = split (trim (_line), ' ');
           if (_words.size () >= 4)
             {
@@ -7842,7 +7842,7 @@ MNM_IO_Multimodal::build_busstop_factory (const std::string &file_folder,
       std::getline (_busstop_file, _line); // skip the first line
       for (int i = 0; i < _num_busstops_virtual; ++i)
         {
-          std::getline (_busstop_file, _line);
+          MNM_IO::next_line (_busstop_file, _line);
           _words = split (trim (_line), ' ');
           if (_words.size () == 3)
             {
@@ -8032,7 +8032,7 @@ MNM_IO_Multimodal::build_parkinglot_factory (
       std::getline (_parkinglot_file, _line); // skip the first line
       for (int i = 0; i < _num_parkinglots; ++i)
         {
-          std::getline (_parkinglot_file, _line);
+          MNM_IO::next_line (_parkinglot_file, _line);
           _words = split (trim (_line), ' ');
           if (_words.size () == 6)
             {
@@ -8123,7 +8123,7 @@ MNM_IO_Multimodal::build_walkinglink_factory (
       std::getline (_walkinglink_file, _line); // skip the first line
       for (int i = 0; i < _num_walkinglinks; ++i)
         {
-          std::getline (_walkinglink_file, _line);
+          MNM_IO::next_line (_walkinglink_file, _line);
           _words = split (trim (_line), ' ');
           if (_words.size () == 7)
             {
@@ -8283,7 +8283,7 @@ MNM_IO_Multimodal::build_buslink_factory (
       std::getline (_buslink_file, _line); // skip the first line
       for (int i = 0; i < _num_buslinks; ++i)
         {
-          std::getline (_buslink_file, _line);
+          MNM_IO::next_line (_buslink_file, _line);
           _words = split (trim (_line), ' ');
           if (_words.size () >= 7)
             {
@@ -8449,7 +8449,7 @@ MNM_IO_Multimodal::build_passenger_demand (
       std::getline (_demand_file, _line); // skip the first line
       for (int i = 0; i < _num_OD; ++i)
         {
-          std::getline (_demand_file, _line);
+          MNM_IO::next_line (_demand_file, _line);
           _words = split (trim (_line), ' ');
           if (TInt (_words.size ()) == (_max_interval + 2))
             {
@@ -8543,7 +8543,7 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
       std::getline (_demand_file, _line); // skip the first line
       for (int i = 0; i < _num_OD_driving; ++i)
         {
-          std::getline (_demand_file, _line);
+          MNM_IO::next_line (_demand_file, _line);
           _words = split (trim (_line), ' ');
           if (TInt (_words.size ()) == (_max_interval * 2 + 2))
             {
@@ -8651,7 +8651,7 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
       std::getline (_bus_demand_file, _line); // skip the first line
       for (int i = 0; i < _num_bus_routes; ++i)
         {
-          std::getline (_bus_demand_file, _line);
+          MNM_IO::next_line (_bus_demand_file, _line);
           _words = split (trim (_line), ' ');
           if (TInt (_words.size ()) == (_max_interval + 3))
             {
@@ -8773,7 +8773,7 @@ MNM_IO_Multimodal::build_pnr_demand (const std::string &file_folder,
       std::getline (_demand_file, _line); // skip the first line
       for (int i = 0; i < _num_OD_pnr; ++i)
         {
-          std::getline (_demand_file, _line);
+          MNM_IO::next_line (_demand_file, _line);
           _words = split (trim (_line), ' ');
           if (TInt (_words.size ()) == (_max_interval + 2))
             {
@@ -8883,7 +8883,7 @@ MNM_IO_Multimodal::build_bustransit_demand (const std::string &file_folder,
       std::getline (_demand_file, _line); // skip the first line
       for (int i = 0; i < _num_OD; ++i)
         {
-          std::getline (_demand_file, _line);
+          MNM_IO::next_line (_demand_file, _line);
           _words = split (trim (_line), ' ');
           if (TInt (_words.size ()) == (_max_interval + 2))
             {
@@ -8998,8 +8998,8 @@ MNM_IO_Multimodal::load_bus_path_table (
       std::getline (_route_file, _route_line);     // skip the first line
       for (int i = 0; i < Num_Path; ++i)
         {
-          std::getline (_path_table_file, _path_line);
-          std::getline (_route_file, _route_line);
+          MNM_IO::next_line (_path_table_file, _path_line);
+          MNM_IO::next_line (_route_file, _route_line);
           // std::cout << "Processing: " << _line << "\n";
           _path_words = split (trim (_path_line), ' '); // returns a vector
           _route_words = split (trim (_route_line), ' ');
@@ -9189,10 +9189,10 @@ MNM_IO_Multimodal::load_pnr_path_table (const macposts::Graph &driving_graph,
       std::getline (_path_table_file, _line); // skip the first line
       for (int i = 0; i < Num_Path; ++i)
         {
-          std::getline (_path_table_file, _line);
+          MNM_IO::next_line (_path_table_file, _line);
           if (w_buffer)
             {
-              std::getline (_buffer_file, _buffer_line);
+              MNM_IO::next_line (_buffer_file, _buffer_line);
               _buffer_words = split (trim (_buffer_line), ' ');
             }
           // std::cout << "Processing: " << _line << "\n";
@@ -9365,10 +9365,10 @@ MNM_IO_Multimodal::load_bustransit_path_table (
       std::getline (_path_table_file, _line); // skip the first line
       for (int i = 0; i < Num_Path; ++i)
         {
-          std::getline (_path_table_file, _line);
+          MNM_IO::next_line (_path_table_file, _line);
           if (w_buffer)
             {
-              std::getline (_buffer_file, _buffer_line);
+              MNM_IO::next_line (_buffer_file, _buffer_line);
               _buffer_words = split (trim (_buffer_line), ' ');
             }
           // std::cout << "Processing: " << _line << "\n";
@@ -15551,7 +15551,7 @@ MNM_MM_Due::load_od_mode_connectivity (
       std::getline (_connectivity_file, _line); // skip the first line
       for (int i = 0; i < _num_OD; ++i)
         {
-          std::getline (_connectivity_file, _line);
+          MNM_IO::next_line (_connectivity_file, _line);
           _words = MNM_IO::split (MNM_IO::trim (_line), ' ');
           if ((int) _words.size () == 5)
             {
-- 
2.43.0


From d05be388a6a5a6a792dd43727895152d6a83ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:12 +0000
Subject: [PATCH 19/43] fix: reject input lines with the wrong number of fields

Node, link, OD, graph, path table and label ratio lines with a wrong number of
fields were skipped silently (or announced on stdout only), which left the
network, demand or path table incomplete.
---
 src/delivery_traffic.cpp | 12 ++++++++++++
 src/ev_traffic.cpp       |  4 ++++
 src/io.cpp               | 36 ++++++++++++++++++++++++++++++++++++
 src/multiclass.cpp       |  8 ++++++++
 src/multimodal.cpp       | 30 +++++++++++++++++++++++++-----
 5 files changed, 85 insertions(+), 5 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index fb91a7f..39a5a6d 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -595,6 +595,10 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       std::getline (_od_file, _line); // skip another line
       // printf("Processing Destination node.\n");
@@ -689,6 +693,10 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
                     = 0;
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       std::getline (_od_file, _line); // skip another line
       // printf("Processing Destination node.\n");
@@ -703,6 +711,10 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
               _node_ID = TInt (std::stoi (_words[1]));
               _od_factory_delivery->make_destination (_dest_ID);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 01886d4..4e0bfd7 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -1636,6 +1636,10 @@ MNM_IO_EV::build_od_factory_ev (const std::string &file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       std::getline (_od_file, _line); // skip another line
       // printf("Processing Destination node.\n");
diff --git a/src/io.cpp b/src/io.cpp
index 23aa39a..e4076d7 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -231,6 +231,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
 
       for (int i = 0; i < _num_of_D;)
@@ -256,6 +260,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               ((MNM_DMDND *) node_factory->get_node (_node_ID))
                 ->hook_up_destination (_dest);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -309,6 +317,10 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
 
       for (int i = 0; i < _num_of_D;)
@@ -334,6 +346,10 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
               ((MNM_DMDND *) node_factory->get_node (_node_ID))
                 ->hook_up_destination (_dest);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -382,6 +398,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               od_factory->make_origin (_origin_ID, _max_interval, _flow_scalar,
                                        _frequency);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
 
       for (int i = 0; i < _num_of_D;)
@@ -401,6 +421,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               _node_ID = TInt (std::stoi (_words[1]));
               od_factory->make_destination (_dest_ID);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -454,6 +478,10 @@ MNM_IO::read_origin_vehicle_label_ratio (const std::string &file_folder,
                     TFlt (std::stof (_words[1 + j])));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   else
@@ -588,6 +616,10 @@ MNM_IO::build_graph (const std::string &file_folder,
             }
           _graph.add_link (_from_ID, _to_ID, _link_ID);
         }
+      else
+        {
+          throw std::runtime_error ("failed to parse line: " + _line);
+        }
     }
   assert ((std::ptrdiff_t) _graph.size_links () == _num_of_link);
   return _graph;
@@ -941,6 +973,10 @@ MNM_IO::load_path_table (const std::string &file_name,
                 ->second->find (_dest_node_ID)
                 ->second->m_path_vec.push_back (_path);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       _path_table_file.close ();
       if (w_buffer)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index ec25cb6..2cfdf6f 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4047,6 +4047,10 @@ MNM_IO_Multiclass::read_origin_car_label_ratio (const std::string &file_folder,
                     TFlt (std::stof (_words[1 + j])));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   else
@@ -4104,6 +4108,10 @@ MNM_IO_Multiclass::read_origin_truck_label_ratio (
                     TFlt (std::stof (_words[1 + j])));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   else
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 4a8700c..ef69b9a 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -7482,6 +7482,10 @@ MNM_IO_Multimodal::build_od_factory_multimodal (std::string file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       std::getline (_od_file, _line); // skip another line
       // printf("Processing Destination node.\n");
@@ -7502,6 +7506,10 @@ MNM_IO_Multimodal::build_od_factory_multimodal (std::string file_folder,
               ((MNM_DMDND *) node_factory->get_node (_node_ID))
                 ->hook_up_destination (_dest);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -7820,7 +7828,7 @@ MNM_IO_Multimodal::build_busstop_factory (const std::string &file_folder,
             }
           else
             {
-              printf ("Wrong line in bus_stop_physical file!\n");
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
     }
@@ -7984,7 +7992,7 @@ MNM_IO_Multimodal::build_busstop_factory (const std::string &file_folder,
             }
           else
             {
-              printf ("Wrong line in bus_stop_virtual file!\n");
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
     }
@@ -8074,7 +8082,7 @@ MNM_IO_Multimodal::build_parkinglot_factory (
             }
           else
             {
-              printf ("Wrong line in parking_lots file!\n");
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
     }
@@ -8239,7 +8247,7 @@ MNM_IO_Multimodal::build_walkinglink_factory (
             }
           else
             {
-              printf ("Wrong line in walking_link file!\n");
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
     }
@@ -8369,7 +8377,7 @@ MNM_IO_Multimodal::build_buslink_factory (
             }
           else
             {
-              printf ("Wrong line in bus_link file!\n");
+              throw std::runtime_error ("failed to parse line: " + _line);
             }
         }
     }
@@ -9120,6 +9128,10 @@ MNM_IO_Multimodal::load_bus_path_table (
                       std::pair<TInt, MNM_BusPath *> (_route_ID, _path));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _path_line);
+            }
         }
       _path_table_file.close ();
       _route_file.close ();
@@ -9303,6 +9315,10 @@ MNM_IO_Multimodal::load_pnr_path_table (const macposts::Graph &driving_graph,
                 ->second->find (_dest_node_ID)
                 ->second->m_path_vec.push_back (_path);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       _path_table_file.close ();
       if (w_buffer)
@@ -9438,6 +9454,10 @@ MNM_IO_Multimodal::load_bustransit_path_table (
                 ->second->find (_dest_node_ID)
                 ->second->m_path_vec.push_back (_path);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       _path_table_file.close ();
       if (w_buffer)
-- 
2.43.0


From 250e978f087466deffaade3acd9991e8f178686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:36 +0000
Subject: [PATCH 20/43] fix: report missing node, link, OD and demand files

The readers skipped a file that could not be opened and left the network or the
demand empty.
---
 src/delivery_traffic.cpp |  8 ++++++++
 src/ev_traffic.cpp       |  4 ++++
 src/io.cpp               | 24 ++++++++++++++++++++++++
 src/multiclass.cpp       | 12 ++++++++++++
 src/multimodal.cpp       | 12 ++++++++++++
 5 files changed, 60 insertions(+)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index 39a5a6d..31d0327 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -627,6 +627,10 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
@@ -717,6 +721,10 @@ MNM_IO_Delivery::build_od_factory_delivery (const std::string &file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 4e0bfd7..0465a1b 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -1667,6 +1667,10 @@ MNM_IO_EV::build_od_factory_ev (const std::string &file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
diff --git a/src/io.cpp b/src/io.cpp
index e4076d7..aeeafd2 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -75,6 +75,10 @@ MNM_IO::build_node_factory (const std::string &file_folder,
         }
       _node_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _node_file_name);
+    }
   return 0;
 }
 
@@ -177,6 +181,10 @@ MNM_IO::build_link_factory (const std::string &file_folder,
         }
       _link_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _link_file_name);
+    }
   return 0;
 }
 
@@ -266,6 +274,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
@@ -352,6 +364,10 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
@@ -427,6 +443,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
@@ -683,6 +703,10 @@ MNM_IO::build_demand (const std::string &file_folder,
       delete[] _demand_vector;
       _demand_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _demand_file_name);
+    }
   return 0;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 2cfdf6f..04b9e6f 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3653,6 +3653,10 @@ MNM_IO_Multiclass::build_node_factory_multiclass (
         }
       _node_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _node_file_name);
+    }
   return 0;
 }
 
@@ -3788,6 +3792,10 @@ MNM_IO_Multiclass::build_link_factory_multiclass (
         }
       _link_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _link_file_name);
+    }
   return 0;
 }
 
@@ -3914,6 +3922,10 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
       delete[] _demand_vector_truck;
       _demand_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _demand_file_name);
+    }
   return 0;
 }
 
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index ef69b9a..43c1ce3 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -7512,6 +7512,10 @@ MNM_IO_Multimodal::build_od_factory_multimodal (std::string file_folder,
             }
         }
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _od_file_name);
+    }
   _od_file.close ();
   return 0;
 }
@@ -7596,6 +7600,10 @@ MNM_IO_Multimodal::build_node_factory_multimodal (
         }
       _node_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _node_file_name);
+    }
   IAssert (TInt (_node_factory->m_node_map.size ()) == _num_of_node);
   // node_factory -> get_node(TInt(1));
   return 0;
@@ -7725,6 +7733,10 @@ MNM_IO_Multimodal::build_link_factory_multimodal (
         }
       _link_file.close ();
     }
+  else
+    {
+      throw std::runtime_error ("failed to open " + _link_file_name);
+    }
   IAssert (TInt (_link_factory->m_link_map.size ()) == _num_of_link);
   return 0;
 }
-- 
2.43.0


From a5d0d74d9028c8b8638390461a2579e838aac040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:58 +0000
Subject: [PATCH 21/43] fix: reject multi-stop trips with an odd number of
 stops

---
 src/delivery_traffic.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index 31d0327..7452eb9 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -788,11 +788,15 @@ MNM_IO_Delivery::build_demand_multi_OD_seq (const std::string &file_folder,
 
           // od sequence
           _words = split (_line1, ' ');
-          Assert (_words.size () % 2 == 0); // multiple OD pairs
+          // multiple OD pairs
+          if (_words.empty () || _words.size () % 2 != 0)
+            {
+              throw std::runtime_error ("failed to parse line: " + _line1);
+            }
           // destruct in Origin destructor
           _od_seq
             = new std::vector<std::pair<MNM_Origin *, MNM_Destination *>> ();
-          for (size_t j = 0; j < _words.size (); j += 2)
+          for (size_t j = 0; j + 1 < _words.size (); j += 2)
             {
               _O_ID = TInt (std::stoi (_words[j]));
               _D_ID = TInt (std::stoi (_words[j + 1]));
-- 
2.43.0


From cfc292558185375bf5d7cb6335a506d0e55eadc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:34 +0000
Subject: [PATCH 22/43] fix: reject paths whose consecutive nodes are not
 connected

---
 src/io.cpp         |  7 +++++++
 src/multimodal.cpp | 15 +++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index aeeafd2..27c7f65 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -968,6 +968,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   _from_ID = _path->m_node_vec[j];
                   _to_ID = _path->m_node_vec[j + 1];
+                  bool _connected = false;
                   for (auto &&c : graph.connections (graph.get_node (_from_ID),
                                                      Direction::Outgoing))
                     {
@@ -975,9 +976,15 @@ MNM_IO::load_path_table (const std::string &file_name,
                           == _to_ID)
                         {
                           _link_ID = graph.get_id (c);
+                          _connected = true;
                           break;
                         }
                     };
+                  if (!_connected)
+                    {
+                      throw std::runtime_error (
+                        "path with nodes that no link connects: " + _line);
+                    }
                   _path->m_link_vec.push_back (_link_ID);
                 }
 
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 43c1ce3..f099830 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -9121,6 +9121,7 @@ MNM_IO_Multimodal::load_bus_path_table (
                       _from_ID = _path->m_node_vec[j];
                       _to_ID = _path->m_node_vec[j + 1];
                       const auto &from = graph.get_node (_from_ID);
+                      bool _connected = false;
                       for (const auto &l :
                            graph.connections (from, Direction::Outgoing))
                         {
@@ -9128,9 +9129,16 @@ MNM_IO_Multimodal::load_bus_path_table (
                               == _to_ID)
                             {
                               _link_ID = graph.get_id (l);
+                              _connected = true;
                               break;
                             }
                         }
+                      if (!_connected)
+                        {
+                          throw std::runtime_error (
+                            "path with nodes that no link connects: "
+                            + _path_line);
+                        }
                       _path->m_link_vec.push_back (_link_ID);
                     }
 
@@ -9264,6 +9272,7 @@ MNM_IO_Multimodal::load_pnr_path_table (const macposts::Graph &driving_graph,
                   _from_ID = _driving_path->m_node_vec[j];
                   _to_ID = _driving_path->m_node_vec[j + 1];
                   const auto &from = driving_graph.get_node (_from_ID);
+                  bool _connected = false;
                   for (const auto &l :
                        driving_graph.connections (from, Direction::Outgoing))
                     {
@@ -9272,9 +9281,15 @@ MNM_IO_Multimodal::load_pnr_path_table (const macposts::Graph &driving_graph,
                           == _to_ID)
                         {
                           _link_ID = driving_graph.get_id (l);
+                          _connected = true;
                           break;
                         }
                     }
+                  if (!_connected)
+                    {
+                      throw std::runtime_error (
+                        "path with nodes that no link connects: " + _line);
+                    }
                   _driving_path->m_link_vec.push_back (_link_ID);
                 }
               IAssert (_driving_path->m_node_vec.front () == _origin_node_ID);
-- 
2.43.0


From 8cbb6a56ebeafb3512e318c14de4d1d8cd627c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:55 +0000
Subject: [PATCH 23/43] fix: reject park-and-ride paths that do not pass their
 parking lot

---
 src/multimodal.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index f099830..071885f 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -9256,6 +9256,7 @@ MNM_IO_Multimodal::load_pnr_path_table (const macposts::Graph &driving_graph,
 
               // driving part
               _driving_path = new MNM_Path ();
+              _transit_ind = 0;
               for (size_t j = 4; j < _words.size (); ++j)
                 {
                   _node_ID = TInt (std::stoi (_words[j]));
@@ -9266,7 +9267,11 @@ MNM_IO_Multimodal::load_pnr_path_table (const macposts::Graph &driving_graph,
                       break;
                     }
                 }
-              IAssert (_transit_ind > 4 && _transit_ind < _words.size ());
+              if (_transit_ind <= 4 || _transit_ind >= _words.size ())
+                {
+                  throw std::runtime_error (
+                    "park-and-ride path without its parking lot: " + _line);
+                }
               for (size_t j = 0; j < _driving_path->m_node_vec.size () - 1; ++j)
                 {
                   _from_ID = _driving_path->m_node_vec[j];
-- 
2.43.0


From c5191c5f2bab4b024824b7400ea585a199fce664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:55 +0000
Subject: [PATCH 24/43] fix: reject bus paths without nodes

---
 src/multimodal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 071885f..d98d33e 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -9023,7 +9023,7 @@ MNM_IO_Multimodal::load_bus_path_table (
           // std::cout << "Processing: " << _line << "\n";
           _path_words = split (trim (_path_line), ' '); // returns a vector
           _route_words = split (trim (_route_line), ' ');
-          if ((_path_words.size () >= 3) && (_route_words.size () >= 3))
+          if ((_path_words.size () >= 4) && (_route_words.size () >= 3))
             {
               _origin_node_ID = TInt (std::stoi (_path_words[0]));
               _dest_node_ID = TInt (std::stoi (_path_words[1]));
-- 
2.43.0


From 6d7b26f58e82ecf231f4c5cbebb15c61c61b9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:31 +0000
Subject: [PATCH 25/43] fix: skip blank and comment lines of the path buffer
 file

---
 src/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index 27c7f65..28b81b4 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -927,7 +927,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   MNM_IO::next_line (_buffer_file, _buffer_line);
                   _buffer_line = trim (_buffer_line);
-                  if (!_line.empty () && _line[0] != '#')
+                  if (!_buffer_line.empty () && _buffer_line[0] != '#')
                     {
                       break;
                     }
-- 
2.43.0


From b767ff1b2becf8b21d25eef37cb6f50bfa0dfe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:30 +0000
Subject: [PATCH 26/43] fix: relax only the links that enter the node in
 all_to_one_LIFO

Every link of the network was relaxed as if it ended at the node taken from
the queue, which gave wrong distances and trees.
---
 src/shortest_path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..dbe739f 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -494,8 +494,9 @@ MNM_Shortest_Path::all_to_one_LIFO (
       _tmp_ID = m_Q.front ();
       m_Q.pop_front ();
       m_Q_support.find (_tmp_ID)->second = false;
+      const auto &node = graph.get_node (_tmp_ID);
       _tmp_dist = _dist.find (_tmp_ID)->second;
-      for (const auto &link : graph.links ())
+      for (const auto &link : graph.connections (node, Direction::Incoming))
         {
           _in_node_ID = graph.get_id (graph.get_endpoints (link).first);
           _in_link_ID = graph.get_id (link);
-- 
2.43.0


From 9b70e0ae6604ba3248703242a333b9700872bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:30 +0000
Subject: [PATCH 27/43] fix: reset existing entries of the tree in
 all_to_one_Dijkstra

A map used before kept the links of nodes that no longer reach the
destination.
---
 src/shortest_path.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index dbe739f..776487f 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -41,9 +41,8 @@ MNM_Shortest_Path::all_to_one_Dijkstra (
         {
           dist_to_dest.insert (
             { _node_id, TFlt (std::numeric_limits<double>::infinity ()) });
-          output_map.insert (
-            { _node_id, -1 }); // If the destination is not accessible the
-                               // output remains -1
+          output_map[_node_id]
+            = -1; // If the destination is not accessible the output remains -1
         }
     }
   dist_to_dest[dest_node_ID] = TFlt (0);
-- 
2.43.0


From 34dcbcad3b71da354d9ef446e6c6c1ca5a821a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:42 +0000
Subject: [PATCH 28/43] fix: check the path flow vector's length where complete
 assignment matrices read it

get_complete_dar_matrix and its car and truck versions handed the data
pointer of f to the library, which read it at path + paths * interval
without knowing its length.
---
 macposts/_ext/dta.cpp     |  2 +-
 macposts/_ext/mcdta.cpp   |  4 ++--
 src/dta_gradient_utls.cpp |  7 ++++++-
 src/dta_gradient_utls.h   |  2 +-
 src/multiclass.cpp        | 28 ++++++++++++++++++++++++----
 src/multiclass.h          |  8 ++++----
 6 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 13cf06d..aa72ca4 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -2262,7 +2262,7 @@ Dta::get_complete_dar_matrix (py::array_t<int> start_intervals,
                                                    TFlt (start_ptr[t]),
                                                    TFlt (end_ptr[t]), i, t,
                                                    _num_e_link, _num_e_path,
-                                                   f_ptr);
+                                                   f_ptr, f_buf.shape[0]);
         }
     }
   // https://eigen.tuxfamily.org/dox/group__TutorialSparse.html
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 236151c..149892a 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -3703,7 +3703,7 @@ Mcdta::get_complete_car_dar_matrix (py::array_t<int> start_intervals,
                                                        TFlt (end_ptr[t]), i, t,
                                                        _num_of_minute,
                                                        _num_e_link, _num_e_path,
-                                                       f_ptr);
+                                                       f_ptr, f_buf.shape[0]);
         }
     }
   mat.makeCompressed ();
@@ -3821,7 +3821,7 @@ Mcdta::get_complete_truck_dar_matrix (py::array_t<int> start_intervals,
                                                          TFlt (end_ptr[t]), i,
                                                          t, _num_of_minute,
                                                          _num_e_link,
-                                                         _num_e_path, f_ptr);
+                                                         _num_e_path, f_ptr, f_buf.shape[0]);
         }
     }
   mat.makeCompressed ();
diff --git a/src/dta_gradient_utls.cpp b/src/dta_gradient_utls.cpp
index a56fe26..11d2c43 100644
--- a/src/dta_gradient_utls.cpp
+++ b/src/dta_gradient_utls.cpp
@@ -410,7 +410,7 @@ add_dar_records_eigen (std::vector<Eigen::Triplet<double>> &record,
                        std::unordered_map<MNM_Path *, int> path_map,
                        TFlt start_time, TFlt end_time, int link_ind,
                        int interval_ind, int num_e_link, int num_e_path,
-                       const double *f_ptr)
+                       const double *f_ptr, int num_f)
 {
   if (link == nullptr)
     {
@@ -451,6 +451,11 @@ add_dar_records_eigen (std::vector<Eigen::Triplet<double>> &record,
                   // https://eigen.tuxfamily.org/dox/classEigen_1_1Triplet.html
                   // https://eigen.tuxfamily.org/dox/SparseUtil_8h_source.html
                   // (row index, col index, value)
+                  if (_y >= num_f)
+                    {
+                      throw std::runtime_error (
+                        "Error, add_dar_records_eigen input path flow mismatch");
+                    }
                   record.push_back (
                     Eigen::Triplet<double> ((double) _x, (double) _y,
                                             tmp_flow / f_ptr[_y]));
diff --git a/src/dta_gradient_utls.h b/src/dta_gradient_utls.h
index e2d3fd6..dad4171 100644
--- a/src/dta_gradient_utls.h
+++ b/src/dta_gradient_utls.h
@@ -72,7 +72,7 @@ int add_dar_records_eigen (std::vector<Eigen::Triplet<double>> &record,
                            std::unordered_map<MNM_Path *, int> path_map,
                            TFlt start_time, TFlt end_time, int link_ind,
                            int interval_ind, int num_e_link, int num_e_path,
-                           const double *f_ptr);
+                           const double *f_ptr, int num_f);
 TFlt get_arrival_cc_slope (MNM_Dlink *link, TFlt start_time, TFlt end_time);
 TFlt get_departure_cc_slope (MNM_Dlink *link, TFlt start_time, TFlt end_time);
 }
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 04b9e6f..b3abe85 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5216,7 +5216,7 @@ add_dar_records_eigen_car (std::vector<Eigen::Triplet<double>> &record,
                            std::set<MNM_Path *> pathset, TFlt start_time,
                            TFlt end_time, int link_ind, int interval_ind,
                            int num_of_minute, int num_e_link, int num_e_path,
-                           const double *f_ptr)
+                           const double *f_ptr, int num_f)
 {
   if (link == nullptr)
     {
@@ -5261,6 +5261,11 @@ add_dar_records_eigen_car (std::vector<Eigen::Triplet<double>> &record,
               // https://eigen.tuxfamily.org/dox/SparseUtil_8h_source.html
               // (row index, col index, value)
               // 0 in f is set to small value in python
+              if (_y >= num_f)
+                {
+                  throw std::runtime_error (
+                    "Error, add_dar_records_eigen_car input path flow mismatch");
+                }
               record.push_back (Eigen::Triplet<double> ((double) _x,
                                                         (double) _y,
                                                         tmp_flow / f_ptr[_y]));
@@ -5277,7 +5282,7 @@ add_dar_records_eigen_car (Eigen::SparseMatrix<double, Eigen::RowMajor> &mat,
                            std::set<MNM_Path *> pathset, TFlt start_time,
                            TFlt end_time, int link_ind, int interval_ind,
                            int num_of_minute, int num_e_link, int num_e_path,
-                           const double *f_ptr)
+                           const double *f_ptr, int num_f)
 {
   if (link == nullptr)
     {
@@ -5323,6 +5328,11 @@ add_dar_records_eigen_car (Eigen::SparseMatrix<double, Eigen::RowMajor> &mat,
               // insert() does not allow duplicates
               // coeffRef(i,j) allows duplicates, but slower
               // 0 in f is set to small value in python
+              if (_y >= num_f)
+                {
+                  throw std::runtime_error (
+                    "Error, add_dar_records_eigen_car input path flow mismatch");
+                }
               mat.insert (_x, _y) = tmp_flow / f_ptr[_y];
             }
         }
@@ -5337,7 +5347,7 @@ add_dar_records_eigen_truck (std::vector<Eigen::Triplet<double>> &record,
                              std::set<MNM_Path *> pathset, TFlt start_time,
                              TFlt end_time, int link_ind, int interval_ind,
                              int num_of_minute, int num_e_link, int num_e_path,
-                             const double *f_ptr)
+                             const double *f_ptr, int num_f)
 {
   if (link == nullptr)
     {
@@ -5382,6 +5392,11 @@ add_dar_records_eigen_truck (std::vector<Eigen::Triplet<double>> &record,
               // https://eigen.tuxfamily.org/dox/SparseUtil_8h_source.html
               // (row index, col index, value)
               // 0 in f is set to small value in python
+              if (_y >= num_f)
+                {
+                  throw std::runtime_error (
+                    "Error, add_dar_records_eigen_truck input path flow mismatch");
+                }
               record.push_back (Eigen::Triplet<double> ((double) _x,
                                                         (double) _y,
                                                         tmp_flow / f_ptr[_y]));
@@ -5398,7 +5413,7 @@ add_dar_records_eigen_truck (Eigen::SparseMatrix<double, Eigen::RowMajor> &mat,
                              std::set<MNM_Path *> pathset, TFlt start_time,
                              TFlt end_time, int link_ind, int interval_ind,
                              int num_of_minute, int num_e_link, int num_e_path,
-                             const double *f_ptr)
+                             const double *f_ptr, int num_f)
 {
   if (link == nullptr)
     {
@@ -5444,6 +5459,11 @@ add_dar_records_eigen_truck (Eigen::SparseMatrix<double, Eigen::RowMajor> &mat,
               // insert() does not allow duplicates
               // coeffRef(i,j) allows duplicates, but slower
               // 0 in f is set to small value in python
+              if (_y >= num_f)
+                {
+                  throw std::runtime_error (
+                    "Error, add_dar_records_eigen_truck input path flow mismatch");
+                }
               mat.insert (_x, _y) = tmp_flow / f_ptr[_y];
             }
         }
diff --git a/src/multiclass.h b/src/multiclass.h
index 62ec287..10eef01 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -696,26 +696,26 @@ int add_dar_records_eigen_car (std::vector<Eigen::Triplet<double>> &record,
                                std::set<MNM_Path *> pathset, TFlt start_time,
                                TFlt end_time, int link_ind, int interval_ind,
                                int num_of_minute, int num_e_link,
-                               int num_e_path, const double *f_ptr);
+                               int num_e_path, const double *f_ptr, int num_f);
 
 int add_dar_records_eigen_car (
   Eigen::SparseMatrix<double, Eigen::RowMajor> &mat, MNM_Dlink_Multiclass *link,
   std::set<MNM_Path *> pathset, TFlt start_time, TFlt end_time, int link_ind,
   int interval_ind, int num_of_minute, int num_e_link, int num_e_path,
-  const double *f_ptr);
+  const double *f_ptr, int num_f);
 
 int add_dar_records_eigen_truck (std::vector<Eigen::Triplet<double>> &record,
                                  MNM_Dlink_Multiclass *link,
                                  std::set<MNM_Path *> pathset, TFlt start_time,
                                  TFlt end_time, int link_ind, int interval_ind,
                                  int num_of_minute, int num_e_link,
-                                 int num_e_path, const double *f_ptr);
+                                 int num_e_path, const double *f_ptr, int num_f);
 
 int add_dar_records_eigen_truck (
   Eigen::SparseMatrix<double, Eigen::RowMajor> &mat, MNM_Dlink_Multiclass *link,
   std::set<MNM_Path *> pathset, TFlt start_time, TFlt end_time, int link_ind,
   int interval_ind, int num_of_minute, int num_e_link, int num_e_path,
-  const double *f_ptr);
+  const double *f_ptr, int num_f);
 
 TFlt get_departure_cc_slope_car (MNM_Dlink_Multiclass *link, TFlt start_time,
                                  TFlt end_time);
-- 
2.43.0


From 0a9da7c8e59c3d98ebcbc2582a19f0dc6339405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:22 +0000
Subject: [PATCH 29/43] fix: keep the fractional part of time-dependent tolls

The toll column of the time-dependent link attribute files was parsed as an
integer, so a toll of 1.75 became 1 (and 0.5 became 0).
---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 28b81b4..e616a06 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -816,7 +816,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index b3abe85..304020c 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4255,7 +4255,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From f7eef50537f0da0d890df1eddf4575d219619cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:22 +0000
Subject: [PATCH 30/43] fix: set the LTM link capacity before checking it

The constructor of MNM_Dlink_Ltm compared the not yet assigned lane capacity
with the capacity that lets one vehicle pass and then overwrote the result, so
the lower bound never applied and an indeterminate value was read.
---
 src/dlink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..a8ad2c8 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1316,11 +1316,11 @@ MNM_Dlink_Ltm::MNM_Dlink_Ltm (TInt ID, TFlt lane_hold_cap, TFlt lane_flow_cap,
     : MNM_Dlink::MNM_Dlink (ID, number_of_lane, length, ffs)
 {
   m_lane_hold_cap = lane_hold_cap;
+  m_lane_flow_cap = lane_flow_cap;
   if (m_lane_flow_cap * TFlt (number_of_lane) * unit_time * flow_scalar < 1.)
     {
       m_lane_flow_cap = 1. / (TFlt (number_of_lane) * unit_time * flow_scalar);
     }
-  m_lane_flow_cap = lane_flow_cap;
   m_flow_scalar = flow_scalar;
   m_hold_cap = m_lane_hold_cap * TFlt (number_of_lane) * m_length;
   m_veh_queue = std::deque<MNM_Veh *> ();
-- 
2.43.0


From 9503858af62d2d020525fcba1a82f8749c99bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:31 +0000
Subject: [PATCH 31/43] fix: apply time-dependent link attributes in multimodal
 simulations

The multimodal simulation reads the time-dependent link attribute file but,
unlike the other simulations, never applied the attributes while loading.
---
 src/multimodal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index d98d33e..dc51960 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -10534,6 +10534,8 @@ MNM_Dta_Multimodal::load_once (bool verbose, TInt load_int, TInt assign_int)
   auto *_routing_multimodal_hybrid
     = dynamic_cast<MNM_Routing_Multimodal_Hybrid *> (m_routing);
 
+  // update some link attributes over time
+  m_link_factory->update_link_attribute (load_int, verbose);
   if (load_int == 0)
     m_statistics->update_record (-1);
   if (verbose)
-- 
2.43.0


From debfae77aa89004be745609c6e43a5a49df77abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:49 +0000
Subject: [PATCH 32/43] fix: set the kind of LTM links

record_queue_vehicles tells point-queue links by their kind, which was left
indeterminate for LTM links.
---
 src/dlink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index a8ad2c8..996d7ca 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1315,6 +1315,7 @@ MNM_Dlink_Ltm::MNM_Dlink_Ltm (TInt ID, TFlt lane_hold_cap, TFlt lane_flow_cap,
                               TFlt unit_time, TFlt flow_scalar)
     : MNM_Dlink::MNM_Dlink (ID, number_of_lane, length, ffs)
 {
+  m_link_type = MNM_TYPE_LTM;
   m_lane_hold_cap = lane_hold_cap;
   m_lane_flow_cap = lane_flow_cap;
   if (m_lane_flow_cap * TFlt (number_of_lane) * unit_time * flow_scalar < 1.)
-- 
2.43.0


From 921b79b6d3ad13df3bdbea0731e233c7b30d3bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:49 +0000
Subject: [PATCH 33/43] fix: start multiclass LQ links with zero perceived
 density

Nodes ask a link for its supply before its first evolve, and the supply was
computed from indeterminate densities.
---
 src/multiclass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 304020c..5c7e69c 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1382,6 +1382,8 @@ MNM_Dlink_Lq_Multiclass::MNM_Dlink_Lq_Multiclass (
   m_volume_truck = TInt (0);
 
   // initialized as car=1, truck=0
+  m_perceived_density_car = TFlt (0);
+  m_perceived_density_truck = TFlt (0);
   m_space_fraction_car = TFlt (1);
   m_space_fraction_truck = TFlt (0);
 
-- 
2.43.0


From f05bfd58c4ae88a5a14d64c0f6ccdf923ade3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:49 +0000
Subject: [PATCH 34/43] fix: start passengers with no waiting time

A walking link holds an incoming passenger back while its waiting time is
positive; it was indeterminate for a passenger released at an origin.
---
 src/multimodal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index dc51960..6db6524 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1689,6 +1689,7 @@ MNM_Passenger::MNM_Passenger (TInt ID, TInt start_time, TInt passenger_type)
   m_dest = nullptr;
   m_parking_lot = nullptr;
   m_start_time = start_time;
+  m_waiting_time = 0;
   m_finish_time = -1; // use to calculate number of still running passenger
   m_assign_interval = -1;
   m_driving_path = nullptr;
-- 
2.43.0


From f24b5890efe37c276cfe428cedcd7418cea11af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:06 +0000
Subject: [PATCH 35/43] fix: clear the transit demand of an OD pair without
 transit

The branch for an OD pair the transit mode does not connect stored the demand
computed for another mode or OD pair (or an indeterminate value) instead of
zero, unlike the branches for driving and park-and-ride.
---
 src/multimodal.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 6db6524..6545245 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -16495,8 +16495,7 @@ MNM_MM_Due::update_origin_demand_logit_model (MNM_Dta_Multimodal *mmdta,
                     = _origin->m_demand_passenger_bus.find (_dest)->second;
                   for (int k = 0; k < _num_of_minute; ++k)
                     {
-                      _demand_vector[assign_inter * _num_of_minute + k]
-                        = _demand;
+                      _demand_vector[assign_inter * _num_of_minute + k] = 0;
                     }
                 }
             }
-- 
2.43.0


From 5f99801a171fb15d9462cda4d6e553995b9ff774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:19 +0000
Subject: [PATCH 36/43] fix: report an OD pair no mode connects in the snapshot
 path search

The mode of the best path was compared while indeterminate when no mode had a
path; it now ends in the error meant for that case.
---
 src/multimodal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 6545245..99a78eb 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -17216,7 +17216,7 @@ MNM_MM_Due::get_lowest_cost_path_snapshot (int start_interval, int o_node_ID,
 
   MNM_Passenger_Path_Base *_p_path = nullptr;
 
-  TInt _mode;
+  TInt _mode = -1;
   TFlt _cost = TFlt (std::numeric_limits<double>::infinity ());
   int _best_time_col, _best_assign_col;
   bool _exist;
-- 
2.43.0


From 895da5269ce2be3aadefec5c0613df84fa0bb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:49 +0000
Subject: [PATCH 37/43] fix: release arrays with delete[]

Travel time, cost and congestion tables are made with new[] and were
released with delete, which is undefined.
---
 macposts/_ext/dta.cpp   |  8 ++++----
 macposts/_ext/mcdta.cpp | 16 ++++++++--------
 src/dso.cpp             |  4 ++--
 src/due.cpp             |  4 ++--
 src/multimodal.cpp      | 24 ++++++++++++------------
 src/pre_routing.cpp     |  2 +-
 src/shortest_path.cpp   |  4 ++--
 7 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index aa72ca4..dc6f20d 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -184,25 +184,25 @@ Dta::~Dta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
 
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 149892a..7c21f0c 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -310,49 +310,49 @@ Mcdta::~Mcdta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
diff --git a/src/dso.cpp b/src/dso.cpp
index 44b0428..1fb031f 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -11,12 +11,12 @@ MNM_Dso::~MNM_Dso ()
 {
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..ebb3fa9 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -398,12 +398,12 @@ MNM_Due_Msa::~MNM_Due_Msa ()
 {
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
   delete m_base_dta;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 99a78eb..91c36d8 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -15189,73 +15189,73 @@ MNM_MM_Due::~MNM_MM_Due ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _tt_it : m_transitlink_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_transitlink_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _cost_it : m_transitlink_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_transitlink_cost_map.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_transitlink_congested_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_transitlink_congested_passenger.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_passenger.clear ();
 
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 913749d..f0a0058 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -127,7 +127,7 @@ MNM_Pre_Routing::~MNM_Pre_Routing ()
           for (auto _demand_it = _rt_dit->second.begin ();
                _demand_it != _rt_dit->second.end (); _demand_it++)
             {
-              delete _demand_it->second;
+              delete[] _demand_it->second;
             }
         }
     }
diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 776487f..7181db5 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -574,9 +574,9 @@ MNM_TDSP_Tree::~MNM_TDSP_Tree ()
     {
       _node_ID = m_graph.get_id (n);
       if (m_dist[_node_ID] != nullptr)
-        delete m_dist[_node_ID];
+        delete[] m_dist[_node_ID];
       if (m_tree[_node_ID] != nullptr)
-        delete m_tree[_node_ID];
+        delete[] m_tree[_node_ID];
     }
   m_dist.clear ();
   m_tree.clear ();
-- 
2.43.0


From c2002b1c6636ec62409c1af7c196b53af99de963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:09 +0000
Subject: [PATCH 38/43] fix: read a finished passenger before deleting it

---
 src/multimodal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 91c36d8..617b144 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1846,10 +1846,6 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
   IAssert (passenger->m_finish_time > passenger->m_start_time);
   m_total_time_passenger
     += (passenger->m_finish_time - passenger->m_start_time);
-  if (del)
-    {
-      delete passenger;
-    }
 
   m_finished_passenger += 1;
   m_enroute_passenger -= 1;
@@ -1858,6 +1854,10 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
       m_finished_passenger_pnr += 1;
       m_enroute_passenger_pnr -= 1;
     }
+  if (del)
+    {
+      delete passenger;
+    }
   IAssert (m_num_passenger >= m_num_passenger_pnr);
   IAssert (m_num_passenger == m_finished_passenger + m_enroute_passenger);
   IAssert (m_num_passenger_pnr
-- 
2.43.0


From d931930cdbb7f0acabe7c985bb1d82549a348c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:09 +0000
Subject: [PATCH 39/43] fix: return the lowest cost path, not the last
 candidate

The last candidate is deleted unless it is the best one.
---
 macposts/_ext/mcdta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index 7c21f0c..cca36d7 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -1431,13 +1431,13 @@ Mcdta::get_lowest_cost_path (int start_interval, int o_node_ID, int d_node_ID)
         }
       if (i < _num_col - 1)
         {
-          result_ptr[i + _num_col * 3] = _path->m_link_vec[i];
+          result_ptr[i + _num_col * 3] = _cur_best_path->m_link_vec[i];
         }
       else
         {
           result_ptr[i + _num_col * 3] = -1;
         }
-      result_ptr[i + _num_col * 2] = _path->m_node_vec[i];
+      result_ptr[i + _num_col * 2] = _cur_best_path->m_node_vec[i];
     }
 
   return result;
-- 
2.43.0


From 27ff1f73ca0915e63a67577dfa13b756f0daf921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:10 +0000
Subject: [PATCH 40/43] fix: replace the bus curve trees of a bus link, not its
 passenger trees

Installing the trees a second time deleted the new passenger tree.
---
 src/multimodal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 617b144..da73811 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -3447,11 +3447,11 @@ MNM_Bus_Link::install_cumulative_curve_tree ()
   // bus
   if (m_N_in_tree_bus != nullptr)
     {
-      delete m_N_in_tree;
+      delete m_N_in_tree_bus;
     }
   if (m_N_out_tree_bus != nullptr)
     {
-      delete m_N_out_tree;
+      delete m_N_out_tree_bus;
     }
   m_N_in_tree_bus = new MNM_Tree_Cumulative_Curve ();
   // m_N_out_tree_bus = new MNM_Tree_Cumulative_Curve();
-- 
2.43.0


From 76ac5a429aabe9526251fb15923a8c37a8893017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:58 +0000
Subject: [PATCH 41/43] fix: take deleted shortest path trees out of the
 routing tables

insert does not replace an entry, so the table kept the deleted tree.
---
 src/multimodal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index da73811..083791b 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -6411,6 +6411,7 @@ MNM_Routing_Multimodal_Adaptive::init_routing ()
         {
           m_driving_table->find (_it.second)->second->clear ();
           delete m_driving_table->find (_it.second)->second;
+          m_driving_table->erase (_it.second);
         }
       m_driving_table->insert (
         std::pair<MNM_Destination *,
@@ -6423,6 +6424,7 @@ MNM_Routing_Multimodal_Adaptive::init_routing ()
             {
               m_transit_table->find (_it.second)->second->clear ();
               delete m_transit_table->find (_it.second)->second;
+              m_transit_table->erase (_it.second);
             }
           m_transit_table->insert (
             std::pair<MNM_Destination *,
-- 
2.43.0


From 76326dcdc97a1ed3af62f28409f7b173b416f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:58 +0000
Subject: [PATCH 42/43] fix: forget the statistics that initialize deletes

---
 src/multiclass.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 5c7e69c..e92947f 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4369,7 +4369,10 @@ MNM_Dta_Multiclass::initialize ()
   if (m_config != nullptr)
     delete m_config;
   if (m_statistics != nullptr)
-    delete m_statistics;
+    {
+      delete m_statistics;
+      m_statistics = nullptr;
+    }
   m_veh_factory = new MNM_Veh_Factory_Multiclass ();
   // printf("1\n");
   m_node_factory = new MNM_Node_Factory_Multiclass ();
-- 
2.43.0


From 05127e426500b2a58ca47b1d4afc753857ed0477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:55 +0000
Subject: [PATCH 43/43] fix: leave the buffer of a bus path to the destructor
 of its base

---
 src/multimodal.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 083791b..3ebe215 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -5087,8 +5087,6 @@ MNM_BusPath::~MNM_BusPath ()
   m_link_vec.clear ();
   m_node_vec.clear ();
   m_busstop_vec.clear ();
-  if (m_buffer != nullptr)
-    delete[] m_buffer;
 }
 
 int
-- 
2.43.0

