From dd9baf630b2f02f06ad9b2bad3592b2e9a3b7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 01/20] fix: euler312_quat method 2 reads the transposed matrix
 element

---
 trick_source/trick_utils/math/src/deuler_312_quat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/trick_utils/math/src/deuler_312_quat.c b/trick_source/trick_utils/math/src/deuler_312_quat.c
index af90288..dcdc8c9 100644
--- a/trick_source/trick_utils/math/src/deuler_312_quat.c
+++ b/trick_source/trick_utils/math/src/deuler_312_quat.c
@@ -123,7 +123,7 @@ int euler312_quat(
         } else if (method == 2) {
 #define TOLERANCE 0.0314159265358979    /* 1.8 degree tolerance */
 
-           mat12 =	2.*(quat[2]*quat[3] + quat[1]*quat[0]);
+           mat12 =	2.*(quat[2]*quat[3] - quat[1]*quat[0]);
 
            if (M_ABS(mat12 - 1.0) < 1.0e-6) {
            	   mat00 = 1. - 2. * (quat[2] * quat[2] + quat[3] * quat[3]);
-- 
2.43.0


From dd663ea07518f53e86a1ec26747a45a2f0c02425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 02/20] fix: euler321_quat singular cases and method 2 read
 transposed matrix elements and use the wrong sign of the previous angle at
 -90 degrees

---
 .../trick_utils/math/src/deuler_321_quat.c    | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/trick_source/trick_utils/math/src/deuler_321_quat.c b/trick_source/trick_utils/math/src/deuler_321_quat.c
index 7fdb961..651e2ef 100644
--- a/trick_source/trick_utils/math/src/deuler_321_quat.c
+++ b/trick_source/trick_utils/math/src/deuler_321_quat.c
@@ -56,8 +56,8 @@ int euler321_quat(
        if (-1.0 <= -mat02 && -mat02 <= 1.0) {
            angle[1] = asin(-mat02);
            if (M_ABS(angle[1] - M_PI_2) < 1.0e-6) {
-           	   mat20 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
-           	   mat21 = 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
+           	   mat20 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+           	   mat21 = 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
             	   angle[0] = atan2(mat21, mat20);
             	   angle[1] = M_PI_2;
             	   angle[2] = 0.0;
@@ -67,8 +67,8 @@ int euler321_quat(
             	       error_flag[0]=1;
             	   }
            } else if (M_ABS(angle[1] + M_PI_2) < 1.0e-6) {
-           	   mat20 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
-           	   mat21 = 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
+           	   mat20 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+           	   mat21 = 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
             	   angle[0] = atan2(-mat21, -mat20);
             	   angle[1] = -M_PI_2;
             	   angle[2] = 0.0;
@@ -88,8 +88,8 @@ int euler321_quat(
        }
        /* Out of normal range for asin func, but within tolerance */
        else if (1.0 < -mat02 && -mat02 <= (1.0 + TOLERANCE)) {
-           mat20 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
-           mat21 = 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
+           mat20 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+           mat21 = 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
            angle[0] = atan2(mat21, mat20);
            angle[1] = M_PI_2;
            angle[2] = 0.0;
@@ -99,8 +99,8 @@ int euler321_quat(
                error_flag[2]=1;
            }
        } else if ((-1.0 - TOLERANCE) <= -mat02 && -mat02 < -1.0) {
-           mat20 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
-           mat21 = 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
+           mat20 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+           mat21 = 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
            angle[0] = atan2(-mat21, -mat20);
            angle[1] = -M_PI_2;
            angle[2] = 0.0;
@@ -123,12 +123,12 @@ int euler321_quat(
    } else if (method == 2) {
 #define TOLERANCE 0.0314159265358979    /* 1.8 degree tolerance */
 
-         mat02 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+         mat02 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
 
         /* Compute euler angles from tranformation */
         if (M_ABS(mat02 + 1.0) < 1.0e-6) {
-            mat20 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
-            mat21 = 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
+            mat20 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+            mat21 = 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
             angle[0] = atan2(mat21, mat20) + prev[2];
             angle[1] = M_PI_2;
             angle[2] = prev[2];
@@ -139,9 +139,9 @@ int euler321_quat(
             	    angle[0] += 2.0 * M_PI;
 
         } else if (M_ABS(mat02 - 1.0) < 1.0e-6) {
-            mat20 = 2.*(quat[1]*quat[3] + quat[2]*quat[0]);
-            mat21 = 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
-            angle[0] = atan2(-mat21, -mat20) + prev[2];
+            mat20 = 2.*(quat[1]*quat[3] - quat[2]*quat[0]);
+            mat21 = 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
+            angle[0] = atan2(-mat21, -mat20) - prev[2];
             angle[1] = -M_PI_2;
             angle[2] = prev[2];
             tmp = angle[0] - prev[0];
@@ -152,7 +152,7 @@ int euler321_quat(
         } else {
             mat00 = 1. - 2.*(quat[2]*quat[2] + quat[3]*quat[3]);
             mat01 =	 2.*(quat[1]*quat[2] - quat[0]*quat[3]);
-            mat12 =	 2.*(quat[2]*quat[3] + quat[1]*quat[0]);
+            mat12 =	 2.*(quat[2]*quat[3] - quat[1]*quat[0]);
             mat22 = 1. - 2.*(quat[1]*quat[1] + quat[2]*quat[2]);
             angle[0] = atan2(mat01, mat00);
             angle[1] = asin(-mat02);
-- 
2.43.0


From 054eccc944bb587ba3dd18db627ff0ad39fedfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 03/20] fix: euler321 method 2 uses the wrong sign of the
 previous angle at -90 degrees

---
 trick_source/trick_utils/math/src/deuler_321.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/trick_utils/math/src/deuler_321.c b/trick_source/trick_utils/math/src/deuler_321.c
index ed85334..d046395 100644
--- a/trick_source/trick_utils/math/src/deuler_321.c
+++ b/trick_source/trick_utils/math/src/deuler_321.c
@@ -143,7 +143,7 @@ int euler321(
                                 angle[0] += 2.0 * M_PI;
 
                 } else if (M_ABS(mat[0][2] - 1.0) < 1.0e-6) {
-                        angle[0] = atan2(-mat[2][1], -mat[2][0]) + prev[2];
+                        angle[0] = atan2(-mat[2][1], -mat[2][0]) - prev[2];
                         angle[1] = -M_PI_2;
                         angle[2] = prev[2];
                         tmp = angle[0] - prev[0];
-- 
2.43.0


From b2c86f96c01712bceb5c0814c96366880f9cce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 04/20] fix: removing a job at the queue's current index moves
 the index before the next job

---
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 4566024..1b7cf7a 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -151,7 +151,7 @@ int Trick::ScheduledJobQueue::remove( JobData * delete_job ) {
             for ( jj = ii + 1 ; jj < list_size ; jj++ ) {
                 new_list[jj-1] = list[jj] ;
             }
-            if ( ii <= curr_index ) {
+            if ( ii < curr_index ) {
                 curr_index-- ;
             }
             /* Decrement the size of the queue */
-- 
2.43.0


From 93f2be4f223319d256c2c54f0e065e54aa4d8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 05/20] fix: JobData::set_next_call_time divides by zero for a
 job with a zero cycle

---
 trick_source/sim_services/SimObject/JobData.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/SimObject/JobData.cpp b/trick_source/sim_services/SimObject/JobData.cpp
index 1aaeb45..ed71ab7 100644
--- a/trick_source/sim_services/SimObject/JobData.cpp
+++ b/trick_source/sim_services/SimObject/JobData.cpp
@@ -104,7 +104,10 @@ int Trick::JobData::calc_cycle_tics() {
 
 int Trick::JobData::set_next_call_time(long long time_tics) {
     if ( next_tics > time_tics  ) {
-        next_tics = time_tics - ( time_tics % cycle_tics ) + cycle_tics ;
+        // a job without a cycle keeps the call time it has
+        if ( cycle_tics > 0 ) {
+            next_tics = time_tics - ( time_tics % cycle_tics ) + cycle_tics ;
+        }
     } else {
         next_tics = time_tics ;
     }
-- 
2.43.0


From f5e9517d6e747dd12287fe2e84d7eec45260aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 06/20] fix: get_terminate_time drops the fraction of a second

---
 trick_source/sim_services/Executive/Executive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index 55c43b8..c46fede 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -268,7 +268,7 @@ double Trick::Executive::get_thread_amf_cycle_time(unsigned int thread_id) {
 }
 
 double Trick::Executive::get_terminate_time() {
-    return(terminate_time / time_tic_value) ;
+    return((double)terminate_time / time_tic_value) ;
 }
 
 int Trick::Executive::get_time_tic_value() {
-- 
2.43.0


From eecb45da8baecbb6250af49000a23980bf572eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 07/20] fix: changing the time tic value drops fractions of a
 second, leaves job stop times in old tics and shifts job start times

---
 .../sim_services/Executive/Executive.cpp      |  4 +-
 .../Executive_set_time_tic_value.cpp          | 41 ++++++++++++-------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index c46fede..23023a7 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -312,7 +312,9 @@ void Trick::Executive::reset_job_call_times() {
     unsigned int ii ;
     for ( ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
         Trick::JobData * temp_job = all_jobs_vector[ii] ;
-        temp_job->start_tics = (long long)round((double)temp_job->start_tics / old_time_tic_value * time_tic_value) + time_tics ;
+        if ( temp_job->start_tics != TRICK_MAX_LONG_LONG ) {
+            temp_job->start_tics += time_tics ;
+        }
 
         if ( temp_job->disabled == false and
              (!temp_job->system_job_class or !temp_job->job_class_name.compare("system_advance_sim_time")) ) {
diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 0806c78..8a5ecb0 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -7,6 +7,14 @@
 #include "trick/message_proto.h"
 #include "trick/message_type.h"
 
+/* the same time in seconds in the new number of tics, the time "never" stays never */
+static long long rescale(long long tics, int old_value, int new_value) {
+    if ( tics >= TRICK_MAX_LONG_LONG - 1 ) {
+        return tics ;
+    }
+    return (long long)round((double)tics / old_value * new_value) ;
+}
+
 int Trick::Executive::set_time_tic_value(int in_tics) {
 
     int ret ;
@@ -20,33 +28,38 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     Trick::JobData::set_time_tic_value(in_tics) ;
 
     /* reset time tics */
-    time_tics = (long long)round((double)time_tics / old_time_tic_value * time_tic_value) ;
+    time_tics = rescale(time_tics, old_time_tic_value, time_tic_value) ;
 
     /* reset software frames */
     software_frame_tics = (long long)(software_frame * time_tic_value) ;
     freeze_frame_tics = (long long)(freeze_frame * time_tic_value) ;
+    next_frame_check_tics = rescale(next_frame_check_tics, old_time_tic_value, time_tic_value) ;
 
     /* reset job times */
-    reset_job_cycle_times() ;
-    reset_job_call_times() ;
+    for ( unsigned int jj = 0 ; jj < all_jobs_vector.size() ; jj++ ) {
+        Trick::JobData * temp_job = all_jobs_vector[jj] ;
+        /* the first call of an integ_loop job is one cycle after its start */
+        bool first_integ_call = ! temp_job->job_class_name.compare("integ_loop") and
+         temp_job->next_tics == temp_job->start_tics + temp_job->cycle_tics ;
+        temp_job->calc_cycle_tics() ;
+        temp_job->start_tics = rescale(temp_job->start_tics, old_time_tic_value, time_tic_value) ;
+        temp_job->stop_tics = rescale(temp_job->stop_tics, old_time_tic_value, time_tic_value) ;
+        if ( first_integ_call ) {
+            temp_job->next_tics = temp_job->start_tics + temp_job->cycle_tics ;
+        } else {
+            temp_job->next_tics = rescale(temp_job->next_tics, old_time_tic_value, time_tic_value) ;
+        }
+    }
 
     /* reset freeze times */
     while ( ! freeze_times.empty() ) {
-        new_freeze_times.push( (long long)round((freeze_times.top() / old_time_tic_value ) * time_tic_value) ) ;
+        new_freeze_times.push( rescale(freeze_times.top(), old_time_tic_value, time_tic_value) ) ;
         freeze_times.pop() ;
     }
     freeze_times = new_freeze_times ;
 
-    if ( freeze_job != NULL ) {
-        if ( freeze_job->next_tics != TRICK_MAX_LONG_LONG ) {
-            freeze_job->next_tics =  (long long)round((freeze_job->next_tics / old_time_tic_value) * time_tic_value) ;
-        }
-    }
-
     /* reset stop time */
-    if ( terminate_time != TRICK_MAX_LONG_LONG-1 ) {
-        terminate_time = (long long)round((terminate_time / old_time_tic_value) * time_tic_value) ;
-    }
+    terminate_time = rescale(terminate_time, old_time_tic_value, time_tic_value) ;
 
     /* call jobs for other objects that need to know the time_tic changed. */
     time_tic_changed_queue.reset_curr_index() ;
@@ -55,7 +68,7 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     while ( (next_job = time_tic_changed_queue.get_next_job()) != NULL ) {
         ret = next_job->call() ;
         if ( ret != 0 ) {
-            message_publish(MSG_ERROR, "ERROR: time_tic_changed job: %s FAILED.\n", curr_job->name.c_str()) ;
+            message_publish(MSG_ERROR, "ERROR: time_tic_changed job: %s FAILED.\n", next_job->name.c_str()) ;
             return(ret) ;
         }
     }
-- 
2.43.0


From d0e8bd92b311dca8e9af95b1a011e92726fd1ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 08/20] fix: a time tic change drops fractions of a second of a
 thread's next time and leaves its current time in old tics

---
 .../sim_services/Executive/Threads_set_amf_cycle_tics.cpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
index cfa2922..f1213c7 100644
--- a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
+++ b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
@@ -19,10 +19,12 @@ int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
 @design
 -# recalculate amf_cycle_tics using new time_tic_value
 -# recalculate amf_next_tics = (amf_next_tics / old_time_tic_value) * time_tic_value
+-# recalculate curr_time_tics = (curr_time_tics / old_time_tic_value) * time_tic_value
 -# return successful 0
 */
 int Trick::Threads::time_tic_changed(long long old_time_tic_value , long long time_tic_value) {
     amf_cycle_tics = (long long)(amf_cycle * time_tic_value) ;
-    amf_next_tics = (long long)round((amf_next_tics / old_time_tic_value) * time_tic_value) ;
+    amf_next_tics = (long long)round((double)amf_next_tics / old_time_tic_value * time_tic_value) ;
+    curr_time_tics = (long long)round((double)curr_time_tics / old_time_tic_value * time_tic_value) ;
     return(0) ;
 }
-- 
2.43.0


From 355a5ce05aef81fe10d8c85d842dfd14be55d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 09/20] fix: a time tic change drops fractions of a second of
 event times

---
 trick_source/sim_services/EventManager/EventManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index a3d1856..244aade 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -257,7 +257,7 @@ int Trick::EventManager::time_tic_changed() {
     tt = exec_get_time_tic_value() ;
 
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
-        active_events[ii]->set_next_tics((long long)round((active_events[ii]->get_next_tics() / old_tt) * tt)) ;
+        active_events[ii]->set_next_tics((long long)round((double)active_events[ii]->get_next_tics() / old_tt * tt)) ;
     }
 
     return 0 ;
-- 
2.43.0


From 87946e9d74cdf9acfeaa5883c1ebd1d4be57dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 10/20] fix: a time tic change leaves the cycles of events in
 old tics

---
 trick_source/sim_services/EventManager/EventManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index 244aade..7ee9011 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -257,6 +257,7 @@ int Trick::EventManager::time_tic_changed() {
     tt = exec_get_time_tic_value() ;
 
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
+        active_events[ii]->set_cycle(active_events[ii]->get_cycle()) ;
         active_events[ii]->set_next_tics((long long)round((double)active_events[ii]->get_next_tics() / old_tt * tt)) ;
     }
 
-- 
2.43.0


From 05bf4629f348c3de7f817432edd2b4af17680b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:56 +0000
Subject: [PATCH 11/20] fix: a time tic change leaves the next call times of
 queues and the freeze clock in old tics

---
 include/trick/ScheduledJobQueue.hh                   |  8 ++++++++
 .../Executive/Executive_set_time_tic_value.cpp       | 10 ++++++++++
 .../ScheduledJobQueue/ScheduledJobQueue.cpp          | 12 ++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/include/trick/ScheduledJobQueue.hh b/include/trick/ScheduledJobQueue.hh
index 00e97e7..d0917e1 100644
--- a/include/trick/ScheduledJobQueue.hh
+++ b/include/trick/ScheduledJobQueue.hh
@@ -190,6 +190,14 @@ namespace Trick {
              */
             int test_next_job_call_time(Trick::JobData * curr_job, long long time_tics) ;
 
+            /**
+             * @brief Converts the overall next job call time to a new number of tics per second.
+             * @param old_time_tic_value - the number of tics per second the time is in
+             * @param time_tic_value - the new number of tics per second
+             * @return always 0
+             */
+            int time_tic_changed(long long old_time_tic_value, long long time_tic_value) ;
+
         private:
 
             /** number of jobs in list */
diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 8a5ecb0..941f59d 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -35,6 +35,9 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     freeze_frame_tics = (long long)(freeze_frame * time_tic_value) ;
     next_frame_check_tics = rescale(next_frame_check_tics, old_time_tic_value, time_tic_value) ;
 
+    freeze_time_tics = rescale(freeze_time_tics, old_time_tic_value, time_tic_value) ;
+    next_freeze_frame_check_tics = rescale(next_freeze_frame_check_tics, old_time_tic_value, time_tic_value) ;
+
     /* reset job times */
     for ( unsigned int jj = 0 ; jj < all_jobs_vector.size() ; jj++ ) {
         Trick::JobData * temp_job = all_jobs_vector[jj] ;
@@ -51,6 +54,13 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
         }
     }
 
+    /* reset the next job times of the queues that keep one */
+    for ( unsigned int jj = 0 ; jj < threads.size() ; jj++ ) {
+        threads[jj]->job_queue.time_tic_changed(old_time_tic_value, time_tic_value) ;
+    }
+    input_processor_run_queue.time_tic_changed(old_time_tic_value, time_tic_value) ;
+    freeze_scheduled_queue.time_tic_changed(old_time_tic_value, time_tic_value) ;
+
     /* reset freeze times */
     while ( ! freeze_times.empty() ) {
         new_freeze_times.push( rescale(freeze_times.top(), old_time_tic_value, time_tic_value) ) ;
diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 1b7cf7a..46c5d1e 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <iostream>
+#include <math.h>
 #include <sstream>
 #include <stdlib.h>
 #include <stdio.h>
@@ -405,6 +406,17 @@ int Trick::ScheduledJobQueue::test_next_job_call_time(Trick::JobData * curr_job,
     return(0) ;
 }
 
+/**
+@details
+-# Convert the next_job_call_time to the new number of tics per second, a time that never comes stays so
+*/
+int Trick::ScheduledJobQueue::time_tic_changed(long long old_time_tic_value, long long time_tic_value) {
+    if ( next_job_time < TRICK_MAX_LONG_LONG - 1 ) {
+        next_job_time = (long long)round((double)next_job_time / old_time_tic_value * time_tic_value) ;
+    }
+    return(0) ;
+}
+
 // Executes the jobs in a queue.  saves and restores Trick::Executive::curr_job
 int Trick::ScheduledJobQueue::execute_all_jobs() {
     Trick::JobData * curr_job ;
-- 
2.43.0


From 4e07b956e36b6a92bd75eda69be7d1073d03768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 12/20] fix: unescape_to_utf8 turns \v into a backspace

---
 trick_source/trick_utils/unicode/src/unicode_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/trick_utils/unicode/src/unicode_utils.c b/trick_source/trick_utils/unicode/src/unicode_utils.c
index 6289d38..0d9ca1c 100644
--- a/trick_source/trick_utils/unicode/src/unicode_utils.c
+++ b/trick_source/trick_utils/unicode/src/unicode_utils.c
@@ -239,7 +239,7 @@ size_t unescape_to_utf8(const char *in, char *out, size_t outSize) {
                     case 'n': { if (out != NULL) { out[out_len] = '\n'; } out_len++; state = 0; } break;
                     case 'r': { if (out != NULL) { out[out_len] = '\r'; } out_len++; state = 0; } break;
                     case 't': { if (out != NULL) { out[out_len] = '\t'; } out_len++; state = 0; } break;
-                    case 'v': { if (out != NULL) { out[out_len] = '\b'; } out_len++; state = 0; } break;
+                    case 'v': { if (out != NULL) { out[out_len] = '\v'; } out_len++; state = 0; } break;
                     case 'x': { digitsExpected = 2; state = 2; } break;
                     case 'u': { digitsExpected = 4; state = 2; } break;
                     case 'U': { digitsExpected = 8; state = 2; } break;
-- 
2.43.0


From 0f83bb3939c526ce4928a6738472527fa6108f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 13/20] fix: unescape_to_utf8 writes past the end of the output
 array

---
 trick_source/trick_utils/unicode/src/unicode_utils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trick_source/trick_utils/unicode/src/unicode_utils.c b/trick_source/trick_utils/unicode/src/unicode_utils.c
index 0d9ca1c..700ab1f 100644
--- a/trick_source/trick_utils/unicode/src/unicode_utils.c
+++ b/trick_source/trick_utils/unicode/src/unicode_utils.c
@@ -209,6 +209,11 @@ size_t unescape_to_utf8(const char *in, char *out, size_t outSize) {
 
     while ((*in != 0) && (state != ERROR_STATE )) {
         unsigned char ch = *in;
+        /* What is left of the input yields at least one more character. */
+        if ((out != NULL) && ((out_len + 1) >= outSize)) {
+            fprintf(stderr,"%s:ERROR: Insufficient room in char array (out).\n", __FUNCTION__);
+            state = ERROR_STATE;
+        }
         switch(state) {
             case 0: { // Normal State
                 if (ch >= 0xf0) {        // Start of a 4-byte UTF-8 sequence.
-- 
2.43.0


From bdec84d84af8dfbdc8ef05723d33a67f8f6f52fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 14/20] fix: invalid code points are encoded as UTF-8 and
 UTF-32

---
 .../trick_utils/unicode/src/unicode_utils.c   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/trick_source/trick_utils/unicode/src/unicode_utils.c b/trick_source/trick_utils/unicode/src/unicode_utils.c
index 700ab1f..6c2bbb2 100644
--- a/trick_source/trick_utils/unicode/src/unicode_utils.c
+++ b/trick_source/trick_utils/unicode/src/unicode_utils.c
@@ -12,7 +12,9 @@
 
 size_t ucodepoint_to_utf32(unsigned int codePoint, int32_t *out) {
 
-    if (codePoint < 0xd800 || codePoint >= 0xe000) { /* Not Surrogate */
+    if (codePoint > 0x10ffff) {
+        fprintf(stderr,"%s:ERROR: Invalid Unicode value (too big): 0x%04x.\n", __FUNCTION__, codePoint);
+    } else if (codePoint < 0xd800 || codePoint >= 0xe000) { /* Not Surrogate */
         *out = (int32_t)codePoint;
         return 1;
     } else {
@@ -46,7 +48,15 @@ size_t ucodepoint_to_utf16(unsigned int codePoint, int16_t (*out)[2]) {
 
 size_t ucodepoint_to_utf8(unsigned int codePoint, char (*out)[4]) {
 
-    if (codePoint <= 0x7f) { /* ASCII */
+    if (codePoint > 0x10ffff) {
+        fprintf(stderr,"%s:ERROR: Invalid Unicode value (too big): 0x%04x.\n", __FUNCTION__, codePoint);
+        return 0;
+
+    } else if (codePoint >= 0xd800 && codePoint < 0xe000) { /* Surrogate */
+        fprintf(stderr,"%s:ERROR: Invalid Unicode value (surrogate): 0x%04x.\n", __FUNCTION__, codePoint);
+        return 0;
+
+    } else if (codePoint <= 0x7f) { /* ASCII */
         (*out)[0] = (char)codePoint;                           /* 0xxxxxxx 0x00..0x7F*/
         return 1;
 
@@ -273,7 +283,10 @@ size_t unescape_to_utf8(const char *in, char *out, size_t outSize) {
                         char utf8_bytes[4];
                         size_t n_elements = ucodepoint_to_utf8(codePoint, &utf8_bytes);
                         state = 0;
-                        if (out != NULL) { 
+                        if (n_elements == 0) {
+                            /* ucodepoint_to_utf8() will have, in this case produced an error message. */
+                            state = ERROR_STATE;
+                        } else if (out != NULL) { 
                             if (out_len + n_elements < outSize) {
                                 memcpy( &out[out_len], utf8_bytes, sizeof(char) * n_elements );
                             } else {
@@ -483,7 +496,10 @@ size_t wchar_to_utf8(const wchar_t *in, char *out, size_t outSize ) {
             if (state != ERROR_STATE) {
                 char utf8_elements[4];
                 size_t n_elements = ucodepoint_to_utf8(codePoint, &utf8_elements);
-                if (out != NULL) {
+                if (n_elements == 0) {
+                    /* ucodepoint_to_utf8() will have, in this case produced an error message. */
+                    state = ERROR_STATE;
+                } else if (out != NULL) {
                     if ((out_len + n_elements) < outSize) {
                         memcpy( &out[out_len], utf8_elements, sizeof(char) * n_elements );
                     } else {
-- 
2.43.0


From 45041d5b11be80f4e894c7374d173ec91db11922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:55 +0000
Subject: [PATCH 15/20] fix: Heun's method takes the second derivative at the
 start of the step

---
 trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
index 8f114b6..8ab9425 100644
--- a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
+++ b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
@@ -397,7 +397,7 @@ void SA::HeunsMethod::variable_step( double h) {
     for (unsigned int i=0; i<state_size; i++) {
         wstate[i] = inState[i] + h * derivs[0][i];
     }
-    (*derivs_func)( X_in, wstate, derivs[1], user_data);
+    (*derivs_func)( X_in + h, wstate, derivs[1], user_data);
     for (unsigned int i=0; i<state_size; i++) {
         outState[i] = inState[i] + (h/2) * ( derivs[0][i] +  derivs[1][i] );
     }
-- 
2.43.0


From 79b9a34b7ceeba1629678ea4810420e550342db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:55 +0000
Subject: [PATCH 16/20] fix: ABM integrators take the predicted derivative at
 the start of the step

---
 trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
index 8ab9425..5cc12f4 100644
--- a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
+++ b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
@@ -976,7 +976,7 @@ void SA::ABMIntegrator::step() {
     // Move history index forward, so we can temporarily store the derivative of the predicted next state.
     // We do not increase the currentHistorySize.
     hix = (hix+1)%bufferSize;
-    (*derivs_func)( X_out, outState, deriv_history[hix], user_data); // Calc deriv for predicted next state.
+    (*derivs_func)( X_in + default_h, outState, deriv_history[hix], user_data); // Calc deriv for predicted next state.
     // (Corrector) Refine the next state using the Adams-Moulton implicit method. This is the corrected next state.
     for (int i=0; i<state_size; i++) {
         composite_deriv[i] = 0.0;
@@ -1128,7 +1128,7 @@ void SA::ABM2Integrator::step() {
         // Move history index forward, so we can temporarily store the derivative of the predicted next state.
         // We do not increase the currentHistorySize.
         hix = (hix+1)%bufferSize;
-        (*derivs_func)( X_in, outState, deriv_history[hix], user_data); // Calc deriv for predicted next state.
+        (*derivs_func)( X_in + default_h, outState, deriv_history[hix], user_data); // Calc deriv for predicted next state.
         // (Corrector) Refine the next state using the Adams-Moulton implicit method. This is the corrected next state.
         for (int i=0; i<state_size; i++) {
             composite_deriv[i] = 0.0;
@@ -1272,7 +1272,7 @@ void SA::ABM4Integrator::step() {
         // Move history index forward, so we can temporarily store the derivative of the predicted next state.
         // We do not increase the currentHistorySize.
         hix = (hix+1)%bufferSize;
-        (*derivs_func)( X_out, outState, deriv_history[hix], user_data); // Calc deriv for predicted next state.
+        (*derivs_func)( X_in + default_h, outState, deriv_history[hix], user_data); // Calc deriv for predicted next state.
         // (Corrector) Refine the next state using the Adams-Moulton implicit method. This is the corrected next state.
         for (int i=0; i<state_size; i++) {
             composite_deriv[i] = 0.0;
-- 
2.43.0


From b258aeff6673a73525a8f9250890e6ff9c61d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:56 +0000
Subject: [PATCH 17/20] fix: priming steps of ABM2 and ABM4 do not start at
 X_in

---
 trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
index 5cc12f4..a0558a7 100644
--- a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
+++ b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
@@ -1113,6 +1113,7 @@ void SA::ABM2Integrator::step() {
     currentHistorySize = (currentHistorySize < 2) ? currentHistorySize+1 : 2;
 
     if ( currentHistorySize < 2 ) {
+        priming_integrator->setIndyVar(X_in);
         priming_integrator->load();
         priming_integrator->step();
         priming_integrator->unload();
@@ -1257,6 +1258,7 @@ void SA::ABM4Integrator::step() {
     // Increase the size of the stored history, up to the limit specified by the user.
     currentHistorySize = (currentHistorySize < 4) ? currentHistorySize+1 : 4;
     if ( currentHistorySize < 4 ) {
+        priming_integrator->setIndyVar(X_in);
         priming_integrator->load();
         priming_integrator->step();
         priming_integrator->unload();
-- 
2.43.0


From 988e44a99266f74924668c67bc615b80025c852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:56 +0000
Subject: [PATCH 18/20] fix: undo_integrate of the ABM integrators leaves an
 undone derivative in a starting history

---
 trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
index a0558a7..b6d1edf 100644
--- a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
+++ b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
@@ -991,6 +991,8 @@ void SA::ABMIntegrator::step() {
 }
 double SA::ABMIntegrator::undo_integrate() {
     hix = (hix+bufferSize-1)%bufferSize;
+    // A step that only added to a still incomplete history is taken out of it.
+    if (currentHistorySize > 0 && currentHistorySize < algorithmHistorySize) currentHistorySize--;
     return (FirstOrderODEIntegrator::undo_integrate());
 }
 // Insertion Operator
@@ -1145,6 +1147,8 @@ void SA::ABM2Integrator::step() {
 }
 double SA::ABM2Integrator::undo_integrate() {
     hix = (hix+bufferSize-1)%bufferSize;
+    // A step that only added to a still incomplete history is taken out of it.
+    if (currentHistorySize > 0 && currentHistorySize < 2) currentHistorySize--;
     return ( FirstOrderODEIntegrator::undo_integrate());
 }
 
@@ -1290,6 +1294,8 @@ void SA::ABM4Integrator::step() {
 }
 double SA::ABM4Integrator::undo_integrate() {
     hix = (hix+bufferSize-1)%bufferSize;
+    // A step that only added to a still incomplete history is taken out of it.
+    if (currentHistorySize > 0 && currentHistorySize < 4) currentHistorySize--;
     return (FirstOrderODEIntegrator::undo_integrate());
 }
 // Insertion Operator
-- 
2.43.0


From 8cec6055d6251708f33b8915d6bedc170e1b291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:03 +0000
Subject: [PATCH 19/20] fix: SAIntegrator releases arrays with delete instead
 of delete[]

---
 .../SAIntegrator/src/SAIntegrator.cpp         | 64 +++++++++----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
index b6d1edf..cd6b041 100644
--- a/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
+++ b/trick_source/trick_utils/SAIntegrator/src/SAIntegrator.cpp
@@ -114,9 +114,9 @@ SA::FirstOrderODEIntegrator& SA::FirstOrderODEIntegrator::operator=( const SA::F
         double* new_outState = new double[rhs.state_size];
         std::copy( rhs.outState, rhs.outState + rhs.state_size, new_outState);
         // Delete lhs arrays & replace with rhs arrays
-        if (inState != NULL) delete inState;
+        if (inState != NULL) delete[] inState;
         inState = new_inState;
-        if (outState != NULL) delete outState;
+        if (outState != NULL) delete[] outState;
         outState = new_outState;
         // Copy primitive members
         state_size = rhs.state_size;
@@ -128,8 +128,8 @@ SA::FirstOrderODEIntegrator& SA::FirstOrderODEIntegrator::operator=( const SA::F
 }
 // Destructor
 SA::FirstOrderODEIntegrator::~FirstOrderODEIntegrator() {
-    if (inState != NULL) delete inState;
-    if (outState != NULL) delete outState;
+    if (inState != NULL) delete[] inState;
+    if (outState != NULL) delete[] outState;
 }
 void SA::FirstOrderODEIntegrator::load() {
     if (inVars != NULL) {
@@ -766,15 +766,15 @@ SA::EulerCromerIntegrator& SA::EulerCromerIntegrator::operator=( const SA::Euler
         double* new_g_out = new double[rhs.nDimensions];
         std::copy( rhs.g_out, rhs.g_out + rhs.nDimensions, new_g_out);
         // Delete lhs arrays & replace with rhs arrays
-        if (pos_in != NULL) delete pos_in;
+        if (pos_in != NULL) delete[] pos_in;
         pos_in = new_pos_in;
-        if (pos_out != NULL) delete pos_out;
+        if (pos_out != NULL) delete[] pos_out;
         pos_out = new_pos_out;
-        if (vel_in != NULL) delete vel_in;
+        if (vel_in != NULL) delete[] vel_in;
         vel_in = new_vel_in;
-        if (vel_out != NULL) delete vel_out;
+        if (vel_out != NULL) delete[] vel_out;
         vel_out = new_vel_out;
-        if (g_out != NULL) delete g_out;
+        if (g_out != NULL) delete[] g_out;
         g_out = new_g_out;
         // Copy primitive members
         last_h = rhs.last_h;
@@ -787,11 +787,11 @@ SA::EulerCromerIntegrator& SA::EulerCromerIntegrator::operator=( const SA::Euler
 }
 // Destructor
 SA::EulerCromerIntegrator::~EulerCromerIntegrator() {
-    if (pos_in != NULL)  delete pos_in;
-    if (pos_out != NULL) delete pos_out;
-    if (vel_in != NULL)  delete vel_in;
-    if (vel_out != NULL) delete vel_out;
-    if (g_out != NULL)   delete g_out;
+    if (pos_in != NULL)  delete[] pos_in;
+    if (pos_out != NULL) delete[] pos_out;
+    if (vel_in != NULL)  delete[] vel_in;
+    if (vel_out != NULL) delete[] vel_out;
+    if (g_out != NULL)   delete[] g_out;
 }
 void SA::EulerCromerIntegrator::advanceIndyVar(double h) {
     last_h = h; X_out = X_in + h;
@@ -937,11 +937,11 @@ SA::ABMIntegrator& SA::ABMIntegrator::operator=( const SA::ABMIntegrator& rhs) {
         std::copy(rhs.composite_deriv, rhs.composite_deriv+rhs.state_size, new_composite_deriv);
         // Delete lhs arrays & replace with rhs arrays
         for (unsigned int i=0 ; i<bufferSize; i++ ) {
-            delete deriv_history[i];
+            delete[] deriv_history[i];
         }
-        delete deriv_history;
+        delete[] deriv_history;
         deriv_history = new_deriv_history;
-        delete composite_deriv;
+        delete[] composite_deriv;
         composite_deriv = new_composite_deriv;
         // Copy primitive members
         bufferSize = rhs.bufferSize;
@@ -954,10 +954,10 @@ SA::ABMIntegrator& SA::ABMIntegrator::operator=( const SA::ABMIntegrator& rhs) {
 // Destructor
 SA::ABMIntegrator::~ABMIntegrator() {
     for (int i=0; i<bufferSize ; i++) {
-        delete (deriv_history[i]);
+        delete[] (deriv_history[i]);
     }
-    delete(deriv_history);
-    delete(composite_deriv);
+    delete[](deriv_history);
+    delete[](composite_deriv);
 }
 void SA::ABMIntegrator::step() {
 
@@ -1085,11 +1085,11 @@ SA::ABM2Integrator& SA::ABM2Integrator::operator=( const SA::ABM2Integrator& rhs
         std::copy(rhs.composite_deriv, rhs.composite_deriv+rhs.state_size, new_composite_deriv);
         // Delete lhs arrays & replace with rhs arrays
         for (unsigned int i=0 ; i<bufferSize; i++ ) {
-            delete deriv_history[i];
+            delete[] deriv_history[i];
         }
-        delete deriv_history;
+        delete[] deriv_history;
         deriv_history = new_deriv_history;
-        delete composite_deriv;
+        delete[] composite_deriv;
         composite_deriv = new_composite_deriv;
         // Copy primitive members
         bufferSize = rhs.bufferSize;
@@ -1101,10 +1101,10 @@ SA::ABM2Integrator& SA::ABM2Integrator::operator=( const SA::ABM2Integrator& rhs
 
 SA::ABM2Integrator::~ABM2Integrator() {
     for (int i=0; i<bufferSize ; i++) {
-        delete (deriv_history[i]);
+        delete[] (deriv_history[i]);
     }
-    delete(deriv_history);
-    delete(composite_deriv);
+    delete[](deriv_history);
+    delete[](composite_deriv);
     delete priming_integrator;
 }
 void SA::ABM2Integrator::step() {
@@ -1234,11 +1234,11 @@ SA::ABM4Integrator& SA::ABM4Integrator::operator=( const SA::ABM4Integrator& rhs
         std::copy(rhs.composite_deriv, rhs.composite_deriv+rhs.state_size, new_composite_deriv);
         // Delete lhs arrays & replace with rhs arrays
         for (unsigned int i=0 ; i<bufferSize; i++ ) {
-            delete deriv_history[i];
+            delete[] deriv_history[i];
         }
-        delete deriv_history;
+        delete[] deriv_history;
         deriv_history = new_deriv_history;
-        delete composite_deriv;
+        delete[] composite_deriv;
         composite_deriv = new_composite_deriv;
         // Copy primitive members
         bufferSize = rhs.bufferSize;
@@ -1249,10 +1249,10 @@ SA::ABM4Integrator& SA::ABM4Integrator::operator=( const SA::ABM4Integrator& rhs
 }
 SA::ABM4Integrator::~ABM4Integrator() {
     for (int i=0; i<bufferSize ; i++) {
-        delete (deriv_history[i]);
+        delete[] (deriv_history[i]);
     }
-    delete(deriv_history);
-    delete(composite_deriv);
+    delete[](deriv_history);
+    delete[](composite_deriv);
     delete priming_integrator;
 }
 void SA::ABM4Integrator::step() {
-- 
2.43.0


From 8bdb05903b6eca4a61537d116fcaf583727583c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:23 +0000
Subject: [PATCH 20/20] fix: flush the data recording buffer when it holds a
 single sample

With a buffer of one sample max_num - 2 wrapped around, so the writer
thread was never woken and the samples were overwritten unwritten.
---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 453bd3a..9c7e40b 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -736,7 +736,7 @@ int Trick::DataRecordGroup::data_record(double in_time) {
             // If this is not the ring buffer and
             // we are going to have trouble fitting 2 data sets then write the data now.
             if ( buffer_type != DR_Ring_Buffer ) {
-                if ( buffer_num - writer_num >= (max_num - 2) ) {
+                if ( buffer_num - writer_num + 2 >= max_num ) {
                     write_data(true) ;
                 }
             }
-- 
2.43.0

