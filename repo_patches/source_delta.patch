From be4242cf76884eb155d5179f92cfe386fe89c2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 01/20] fix: strongly connected components: a finished vertex
 is ignored only once it has left the stack

---
 include/connectivity.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..da94c93 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -32,7 +32,7 @@ private:
     std::vector<size_t> num;     // holding vertex numbers
     std::vector<size_t> lowest;  // lowest[v] : minimum number of a vertex reachable from v
     std::vector<bool> visited;   // visited so DFS has seen these vertices (not necessarily processed)
-    std::vector<bool> processed; // vertices which have been processed by DFS
+    std::vector<bool> processed; // vertices which have been assigned to an SCC, i.e. which have left the stack
     std::vector<size_t>
         stack; // stack of vertices to keep a working set of vertices. Holds all vertices reachable from the starting vertex
     size_t index_counter; // depth-first search node number counter
@@ -78,9 +78,6 @@ private:
             } // u has been visited
         }
 
-        // Now v has been processed
-        processed[v] = true;
-
         // Handle SCC if found
         if( lowest[v] == num[v] )
         {
@@ -89,12 +86,14 @@ private:
             // Pop the stack
             scc_vertex = stack.back();
             stack.pop_back();
+            processed[scc_vertex] = true;
             while( scc_vertex != v )
             {
                 scc.push_back( scc_vertex ); // Add to the SCC
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
+                processed[scc_vertex] = true;
             } // unravelling stack
             // Add the last vertex
             scc.push_back( scc_vertex );
-- 
2.43.0


From 5fcb569dccf2f163032e6afbebebbf70917ce948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 02/20] fix: strongly connected components: no recursion, which
 overflowed the stack on long paths

---
 include/connectivity.hpp | 111 +++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 45 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index da94c93..b048b78 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -1,6 +1,8 @@
 #pragma once
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
+#include <utility>
 #include <vector>
 
 namespace Seldon
@@ -38,69 +40,88 @@ private:
     size_t index_counter; // depth-first search node number counter
 
     // Depth-first search
-    // v: Current vertex
-    void depth_first_search( std::size_t v )
+    // root: Vertex from which the search starts
+    // The current path of the search is kept on the heap, since its depth is only limited by the number of vertices
+    void depth_first_search( std::size_t root )
     {
         std::vector<size_t> scc;
+        std::vector<std::pair<size_t, size_t>> path; // (vertex, position of the next neighbour to look at)
 
-        // Set things for the current vertex v
-        num[v]    = index_counter;
-        lowest[v] = num[v];
-        index_counter += 1;
-        visited[v] = true;
-        stack.push_back( v );
+        // Set things for a vertex v which is visited for the first time
+        auto visit = [&]( std::size_t v )
+        {
+            num[v]    = index_counter;
+            lowest[v] = num[v];
+            index_counter += 1;
+            visited[v] = true;
+            stack.push_back( v );
+            path.emplace_back( v, 0 );
+        };
 
-        // Loop through neighbours of v
-        // u is the neighbouring vertex
-        for( auto & u : adjacency_list[v] )
+        visit( root );
+        while( !path.empty() )
         {
-            // Skip for the element itself
-            if( u == v )
-            {
-                continue;
-            }
+            // Current vertex v
+            const size_t v = path.back().first;
 
-            // If u hasn't been visited do a DFS
-            if( !visited[u] )
-            {
-                // recursive call to DFS
-                depth_first_search( u );
-                lowest[v] = std::min( lowest[v], lowest[u] );
-            } // u not visited
-            else
+            if( path.back().second < adjacency_list[v].size() )
             {
+                // u is the neighbouring vertex
+                const size_t u = adjacency_list[v][path.back().second];
+                path.back().second++;
+
+                // Skip for the element itself
+                if( u == v )
+                {
+                    continue;
+                }
+
+                // If u hasn't been visited, continue the search from u
+                if( !visited[u] )
+                {
+                    visit( u );
+                } // u not visited
                 // If u has been processed, then it is a cross-edge and should be ignored.
                 // If u has been visited but not processed:
-                if( !processed[u] )
+                else if( !processed[u] )
                 {
                     lowest[v] = std::min( lowest[v], num[u] );
                 } // u not processed
-            } // u has been visited
-        }
+                continue;
+            }
 
-        // Handle SCC if found
-        if( lowest[v] == num[v] )
-        {
-            scc.resize( 0 );
-            size_t scc_vertex = 0;
-            // Pop the stack
-            scc_vertex = stack.back();
-            stack.pop_back();
-            processed[scc_vertex] = true;
-            while( scc_vertex != v )
+            // All neighbours of v have been looked at, go back to the vertex from which v was visited
+            path.pop_back();
+            if( !path.empty() )
             {
-                scc.push_back( scc_vertex ); // Add to the SCC
+                const size_t parent = path.back().first;
+                lowest[parent]      = std::min( lowest[parent], lowest[v] );
+            }
+
+            // Handle SCC if found
+            if( lowest[v] == num[v] )
+            {
+                scc.resize( 0 );
+                size_t scc_vertex = 0;
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
                 processed[scc_vertex] = true;
-            } // unravelling stack
-            // Add the last vertex
-            scc.push_back( scc_vertex );
-            // Now that we have found the SCC, add it
-            // to the SCC list
-            scc_list.push_back( scc );
-        } // SCC found
+                while( scc_vertex != v )
+                {
+                    scc.push_back( scc_vertex ); // Add to the SCC
+                    // Pop the stack
+                    scc_vertex = stack.back();
+                    stack.pop_back();
+                    processed[scc_vertex] = true;
+                } // unravelling stack
+                // Add the last vertex
+                scc.push_back( scc_vertex );
+                // Now that we have found the SCC, add it
+                // to the SCC list
+                scc_list.push_back( scc );
+            } // SCC found
+        }
     }
 
     // Actually run Tarjan's algorithm
-- 
2.43.0


From da4a84300559cc9278d25a57523d6996a643a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 03/20] fix: generate_n_connections: with fewer other agents
 than connections, every other agent is connected once

---
 include/network_generation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index e71b50f..c45cfc3 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "network.hpp"
+#include <algorithm>
 #include <cstddef>
 #include <random>
 #include <util/math.hpp>
@@ -36,7 +37,9 @@ generate_n_connections( size_t n_agents, size_t n_connections, bool self_interac
 
         // Get the vector of sorted adjacencies, excluding i (include i later)
         // TODO: option for making the n_connections variable
-        draw_unique_k_from_n( i_agent, n_connections, n_agents, incoming_neighbour_buffer, gen );
+        // There are only n_agents - 1 other agents to connect to
+        draw_unique_k_from_n(
+            i_agent, std::min( n_connections, n_agents - 1 ), n_agents, incoming_neighbour_buffer, gen );
 
         incoming_neighbour_weights.resize( incoming_neighbour_buffer.size() );
         for( size_t j = 0; j < incoming_neighbour_buffer.size(); ++j )
-- 
2.43.0


From d5faf2b0165278cb99cefdf35bf29cf6bdb87f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 04/20] fix: DeGroot: the default convergence tolerance is
 1e-6, as documented

---
 include/config_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 86f63bb..1af7bd3 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -44,7 +44,7 @@ struct OutputSettings
 struct DeGrootSettings
 {
     std::optional<int> max_iterations = std::nullopt;
-    double convergence_tol;
+    double convergence_tol            = 1e-6;
 };
 
 struct DeffuantSettings
-- 
2.43.0


From a96c88500f91a8dd3c5104db0ae1bdc9d2deb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 05/20] fix: weighted reservoir sampling: never draw items of
 weight zero, leave no stale buffer, keep keys in log space

---
 include/util/math.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..0ac2c5c 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -65,47 +65,55 @@ template<typename WeightCallbackT>
 void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
+    buffer.clear();
     if( k == 0 )
         return;
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
-    std::vector<size_t> reservoir( k );
     using QueueItemT = std::pair<size_t, double>;
 
     auto compare = []( const QueueItemT & item1, const QueueItemT & item2 ) { return item1.second > item2.second; };
     std::priority_queue<QueueItemT, std::vector<QueueItemT>, decltype( compare )> H;
 
+    // The key of an item is u^(1/weight), with u uniform in [0,1). The queue holds the logarithms of the keys, because
+    // the keys themselves round to 0 or 1 if the weights are far from 1. Items with zero weight are never selected.
     size_t idx = 0;
     while( ( idx < n ) && ( H.size() < k ) )
     {
-        double r = std::pow( distribution( mt ), 1.0 / weight( idx ) );
-        H.push( { idx, r } );
+        const double w = weight( idx );
+        if( w > 0.0 )
+        {
+            H.push( { idx, std::log( distribution( mt ) ) / w } );
+        }
         idx++;
     }
 
-    auto X = std::log( distribution( mt ) ) / std::log( H.top().second );
+    if( H.empty() )
+        return;
+
+    auto X = std::log( distribution( mt ) ) / H.top().second;
     while( idx < n )
     {
-        auto w = weight( idx );
+        const double w = weight( idx );
         X -= w;
-        if( X <= 0 )
+        if( w > 0.0 && X <= 0 )
         {
-            auto t                     = std::pow( H.top().second, w );
-            auto uniform_from_t_to_one = distribution( mt ) * ( 1.0 - t ) + t; // Random number in interval [t, 1.0]
-            auto r                     = std::pow( uniform_from_t_to_one, 1.0 / w );
+            const auto one_minus_t = -std::expm1( H.top().second * w ); // t is the smallest key to the power of w
+            // Logarithm of a random number in interval [t, 1.0], divided by the weight
+            const auto r = std::log1p( -distribution( mt ) * one_minus_t ) / w;
             H.pop();
             H.push( { idx, r } );
-            X = std::log( distribution( mt ) ) / std::log( H.top().second );
+            X = std::log( distribution( mt ) ) / H.top().second;
         }
         idx++;
     }
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( auto & selected : buffer )
     {
-        buffer[i] = H.top().first;
+        selected = H.top().first;
         H.pop();
     }
 }
-- 
2.43.0


From 6b355139114275d26dea33116cb0ba2aae999f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 06/20] fix: network_to_dot_file: agents without neighbours

---
 include/network_io.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..8891d08 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -23,11 +23,11 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i < buffer.size(); i++ )
         {
-            row += fmt::format( "{}, ", buffer[i] );
+            row += fmt::format( "{}{}", i == 0 ? "" : ", ", buffer[i] );
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From b3bc9f3d89e94108795a3b2650fad1ac59b9a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 07/20] fix: parse_comma_separated_list: a substring ends at
 the next comma

---
 include/util/misc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..2f09daa 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -47,7 +47,7 @@ void parse_comma_separated_list( const std::string & str, CallbackT & callback )
     while( true )
     {
         auto pos_next = str.find( ',', pos_cur + 1 );
-        auto substr   = str.substr( pos_cur + 1, pos_next );
+        auto substr   = str.substr( pos_cur + 1, pos_next - ( pos_cur + 1 ) );
         callback( idx_entry, substr );
 
         pos_cur = pos_next;
-- 
2.43.0


From fca4730ec5b2c6cba182253ee7fcb61b4a34fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 08/20] fix: reading files: subnormal numbers, which the
 program writes, can be read back

---
 include/agents/activity_agent.hpp |  9 +++++----
 include/agents/inertial_agent.hpp |  8 ++++----
 include/agents/simple_agent.hpp   |  3 ++-
 include/network_generation.hpp    |  2 +-
 include/util/misc.hpp             | 20 ++++++++++++++++++++
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index ec229f5..2882620 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -2,6 +2,7 @@
 
 #include "agent.hpp"
 #include "agent_io.hpp"
+#include "util/misc.hpp"
 
 namespace Seldon
 {
@@ -35,20 +36,20 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
     auto pos_comma      = str.find_first_of( ',' );
     auto pos_next_comma = str.find( ',', pos_comma + 1 );
 
-    res.data.opinion = std::stod( str.substr( 0, pos_comma ) );
+    res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
     if( pos_next_comma == std::string::npos )
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, str.size() ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, str.size() ) );
     }
     else
     {
-        res.data.activity = std::stod( str.substr( pos_comma + 1, pos_next_comma ) );
+        res.data.activity = string_to_double( str.substr( pos_comma + 1, pos_next_comma ) );
     }
 
     if( pos_next_comma != std::string::npos )
     {
-        res.data.reluctance = std::stod( str.substr( pos_next_comma + 1, str.size() ) );
+        res.data.reluctance = string_to_double( str.substr( pos_next_comma + 1, str.size() ) );
     }
 
     return res;
diff --git a/include/agents/inertial_agent.hpp b/include/agents/inertial_agent.hpp
index 469376a..3eb16bc 100644
--- a/include/agents/inertial_agent.hpp
+++ b/include/agents/inertial_agent.hpp
@@ -39,19 +39,19 @@ inline InertialAgent agent_from_string<InertialAgent>( const std::string & str )
     {
         if( idx_list == 0 )
         {
-            res.data.opinion = std::stod( substr );
+            res.data.opinion = string_to_double( substr );
         }
         else if( idx_list == 1 )
         {
-            res.data.velocity = std::stod( substr );
+            res.data.velocity = string_to_double( substr );
         }
         else if( idx_list == 2 )
         {
-            res.data.activity = std::stod( substr );
+            res.data.activity = string_to_double( substr );
         }
         else if( idx_list == 3 )
         {
-            res.data.reluctance = std::stod( substr );
+            res.data.reluctance = string_to_double( substr );
         }
     };
 
diff --git a/include/agents/simple_agent.hpp b/include/agents/simple_agent.hpp
index c247e69..b58efd7 100644
--- a/include/agents/simple_agent.hpp
+++ b/include/agents/simple_agent.hpp
@@ -2,6 +2,7 @@
 
 #include "agent.hpp"
 #include "agent_io.hpp"
+#include "util/misc.hpp"
 
 namespace Seldon
 {
@@ -29,7 +30,7 @@ template<>
 inline SimpleAgent agent_from_string<SimpleAgent>( const std::string & str )
 {
     SimpleAgent res{};
-    res.data.opinion = std::stod( str );
+    res.data.opinion = string_to_double( str );
     return res;
 }
 
diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index c45cfc3..713bd9d 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -231,7 +231,7 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             else if( idx_column >= 2 + n_neighbours )
             { // The rest of the columns are the weights
-                const auto weight = std::stod( column_substring );
+                const auto weight = string_to_double( column_substring );
                 weight_list.back().push_back( weight );
             }
             idx_column++;
diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index 2f09daa..68124ed 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -1,6 +1,9 @@
 #pragma once
 #include "fmt/format.h"
 #include <fmt/ostream.h>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <filesystem>
 #include <fstream>
 #include <stdexcept>
@@ -31,6 +34,23 @@ inline std::string get_file_contents( const std::string & filename )
     throw( std::runtime_error( "Cannot read file." ) );
 }
 
+// Like std::stod, but accepts subnormal numbers, for which std::stod throws std::out_of_range
+inline double string_to_double( const std::string & str )
+{
+    char * end         = nullptr;
+    errno              = 0;
+    const double value = std::strtod( str.c_str(), &end );
+    if( end == str.c_str() )
+    {
+        throw std::invalid_argument( fmt::format( "Cannot read a number from '{}'", str ) );
+    }
+    if( errno == ERANGE && std::abs( value ) == HUGE_VAL )
+    {
+        throw std::out_of_range( fmt::format( "The number '{}' is too large", str ) );
+    }
+    return value;
+}
+
 /*
 Executes `callback` for each substring in a comma separated list.
 If the input is "a_d, b, 1", it would call the callback function like
-- 
2.43.0


From 54fb4b7520417661757a854f0968ad1be3c34318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 09/20] fix: agents file: an activity agent given only its
 opinion keeps its default activity

---
 include/agents/activity_agent.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/agents/activity_agent.hpp b/include/agents/activity_agent.hpp
index 2882620..4717d66 100644
--- a/include/agents/activity_agent.hpp
+++ b/include/agents/activity_agent.hpp
@@ -38,6 +38,11 @@ inline ActivityAgent agent_from_string<ActivityAgent>( const std::string & str )
 
     res.data.opinion = string_to_double( str.substr( 0, pos_comma ) );
 
+    if( pos_comma == std::string::npos ) // Only the opinion is given
+    {
+        return res;
+    }
+
     if( pos_next_comma == std::string::npos )
     {
         res.data.activity = string_to_double( str.substr( pos_comma + 1, str.size() ) );
-- 
2.43.0


From 29a97188c787718dbdbca5e191d3819ab13e34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:01 +0000
Subject: [PATCH 10/20] fix: power law distribution: the density is the
 documented one

---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 0ac2c5c..8f7fd53 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -145,7 +145,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
-- 
2.43.0


From c8b41e350b02c3b487a862335a1e66dcd5b9cae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 11/20] fix: mean-field weights: a lone agent has none, instead
 of NaN

---
 include/models/ActivityDrivenModel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..c96f1bb 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -275,7 +275,8 @@ private:
             double activity = std::max( 1.0, network.agents[idx_agent].data.activity );
             for( size_t j = 0; j < network.n_agents(); j++ )
             {
-                double omega = homophily_weight( idx_agent, j ) / normalization;
+                // A lone agent has nobody to contact (and a normalization of zero)
+                double omega = normalization > 0 ? homophily_weight( idx_agent, j ) / normalization : 0.0;
                 // We can calculate the probability of i contacting j ( i->j )
                 // Update contact prob_list (outgoing)
                 contact_prob_list[idx_agent][j] = activity * probability_helper( omega, m_temp );
-- 
2.43.0


From fae4d00f284c4b5e5b7a5234a7a3b19600ba4b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 12/20] fix: activity-driven models: refuse more bots than
 agents, which wrote out of bounds

---
 include/models/ActivityDrivenModel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index c96f1bb..268d623 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -51,6 +52,11 @@ public:
               bot_opinion( settings.bot_opinion ),
               bot_homophily( settings.bot_homophily )
     {
+        if( n_bots > network.n_agents() )
+        {
+            throw std::runtime_error( "There are more bots than agents." );
+        }
+
         get_agents_from_power_law();
 
         if( mean_weights )
-- 
2.43.0


From 25a29a9d97ad435f32f86f70f5dddb0d39fe338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 13/20] fix: validate_settings: refuse output intervals of
 zero, which divided by zero

---
 src/config_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..e768846 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,8 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    check( name_and_var( options.output_settings.n_output_agents.value_or( 1 ) ), g_zero );
+    check( name_and_var( options.output_settings.n_output_network.value_or( 1 ) ), g_zero );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From 9a55334044cc3c13d14e92b9aec9a005b9d0b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 14/20] fix: generate_from_file: refuse neighbour indices out
 of range and rows with missing or surplus weights

---
 include/network_generation.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 713bd9d..900f016 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <random>
+#include <stdexcept>
 #include <util/math.hpp>
 #include <util/misc.hpp>
 #include <vector>
@@ -238,6 +239,17 @@ Network<AgentType> generate_from_file( const std::string & file )
         }
     }
 
+    for( size_t idx_agent = 0; idx_agent < neighbour_list.size(); idx_agent++ )
+    {
+        const auto & neighbours = neighbour_list[idx_agent];
+        const bool in_range     = std::all_of(
+            neighbours.begin(), neighbours.end(), [&]( size_t idx ) { return idx < neighbour_list.size(); } );
+        if( !in_range || neighbours.size() != weight_list[idx_agent].size() )
+        {
+            throw std::runtime_error( fmt::format( "Invalid network file {}: check agent {}", file, idx_agent ) );
+        }
+    }
+
     return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
 }
 
-- 
2.43.0


From e4ad2702429f8cf45e6aa44a9203f2727311a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 15/20] fix: simulation: refuse an agents file whose number of
 agents is not that of the network

---
 include/simulation.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index ecc9528..9e8a9b1 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -14,7 +14,9 @@
 #include <network_generation.hpp>
 #include <network_io.hpp>
 #include <optional>
+#include <stdexcept>
 #include <string>
+#include <utility>
 namespace fs = std::filesystem;
 
 namespace Seldon
@@ -89,7 +91,14 @@ public:
 
         if( cli_agent_file.has_value() )
         {
-            network.agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            auto agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            if( agents.size() != network.n_agents() )
+            {
+                throw std::runtime_error( fmt::format(
+                    "The file {} has {} agents, but the network has {}", cli_agent_file.value(), agents.size(),
+                    network.n_agents() ) );
+            }
+            network.agents = std::move( agents );
         }
     }
 
-- 
2.43.0


From b01c7a54e7a4d32fa53f224ba7b94615fce0f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 16/20] fix: config file: refuse option values of the wrong
 type or out of range instead of silently using the default

---
 src/config_parser.cpp | 51 +++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index e768846..ea6ff91 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -36,10 +36,24 @@ Model model_string_to_enum( std::string_view model_string )
     throw std::runtime_error( fmt::format( "Invalid model string {}", model_string ) );
 }
 
+// Returns the value of an option, if it is specified. Throws, if the specified value cannot be represented as a T.
+template<typename T>
+std::optional<T> value_if_specified( const auto & toml_opt )
+{
+    auto t_opt = toml_opt.template value<T>();
+    if( toml_opt && !t_opt.has_value() )
+    {
+        auto line = toml_opt.node()->source().begin.line;
+        throw std::runtime_error(
+            fmt::format( "The value of an option has the wrong type or is out of range (line {})", line ) );
+    }
+    return t_opt;
+}
+
 void set_if_specified( auto & opt, const auto & toml_opt )
 {
     using T    = typename std::remove_reference<decltype( opt )>::type;
-    auto t_opt = toml_opt.template value<T>();
+    auto t_opt = value_if_specified<T>( toml_opt );
     if( t_opt.has_value() )
         opt = t_opt.value();
 }
@@ -65,29 +79,24 @@ void parse_activity_settings( auto & model_settings, const auto & toml_model_opt
     set_if_specified( model_settings.reluctance_sigma, toml_model_opt["reluctance_sigma"] );
     set_if_specified( model_settings.reluctance_eps, toml_model_opt["reluctance_eps"] );
 
-    model_settings.max_iterations = tbl["model"]["max_iterations"].template value<int>();
+    model_settings.max_iterations = value_if_specified<int>( tbl["model"]["max_iterations"] );
 
     // bot
     set_if_specified( model_settings.n_bots, toml_model_opt["n_bots"] );
 
     auto push_back_bot_array = [&]( auto toml_node, auto & options_array, auto default_value )
     {
-        if( toml_node.is_array() )
+        if( toml_node )
         {
             toml::array * toml_arr = toml_node.as_array();
-
-            toml_arr->for_each(
-                [&]( auto && elem )
-                {
-                    if( elem.is_integer() )
-                    {
-                        options_array.push_back( elem.as_integer()->get() );
-                    }
-                    else if( elem.is_floating_point() )
-                    {
-                        options_array.push_back( elem.as_floating_point()->get() );
-                    }
-                } );
+            if( toml_arr == nullptr )
+                throw std::runtime_error( "The options of the bots need to be arrays" );
+
+            for( auto & elem : *toml_arr )
+            {
+                auto value = value_if_specified<decltype( default_value )>( toml::node_view<toml::node>( elem ) );
+                options_array.push_back( value.value() );
+            }
         }
         else
         {
@@ -113,11 +122,11 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     toml::table tbl;
     tbl = toml::parse_file( config_file_path );
 
-    options.rng_seed = tbl["simulation"]["rng_seed"].value_or( int( options.rng_seed ) );
+    set_if_specified( options.rng_seed, tbl["simulation"]["rng_seed"] );
 
     // Parse output settings
-    options.output_settings.n_output_network = tbl["io"]["n_output_network"].value<size_t>();
-    options.output_settings.n_output_agents  = tbl["io"]["n_output_agents"].value<size_t>();
+    options.output_settings.n_output_network = value_if_specified<size_t>( tbl["io"]["n_output_network"] );
+    options.output_settings.n_output_agents  = value_if_specified<size_t>( tbl["io"]["n_output_agents"] );
     set_if_specified( options.output_settings.print_progress, tbl["io"]["print_progress"] );
     set_if_specified( options.output_settings.output_initial, tbl["io"]["output_initial"] );
     set_if_specified( options.output_settings.start_output, tbl["io"]["start_output"] );
@@ -134,14 +143,14 @@ SimulationOptions parse_config_file( std::string_view config_file_path )
     if( options.model == Model::DeGroot )
     {
         auto model_settings           = DeGrootSettings();
-        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
+        model_settings.max_iterations = value_if_specified<int>( tbl["model"]["max_iterations"] );
         set_if_specified( model_settings.convergence_tol, tbl[options.model_string]["convergence"] );
         options.model_settings = model_settings;
     }
     else if( options.model == Model::DeffuantModel )
     {
         auto model_settings           = DeffuantSettings();
-        model_settings.max_iterations = tbl["model"]["max_iterations"].value<int>();
+        model_settings.max_iterations = value_if_specified<int>( tbl["model"]["max_iterations"] );
         set_if_specified( model_settings.homophily_threshold, tbl[options.model_string]["homophily_threshold"] );
         set_if_specified( model_settings.mu, tbl[options.model_string]["mu"] );
         set_if_specified( model_settings.use_network, tbl[options.model_string]["use_network"] );
-- 
2.43.0


From 822439fafdbad45b7f16bff2da78181947322a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 17/20] fix: activity model: declare the specialised
 iteration() in the header so that users of the library do not get the empty
 one

---
 include/models/ActivityDrivenModel.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 268d623..15b4a8c 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -356,6 +356,11 @@ protected:
     }
 };
 
+// Defined in ActivityDrivenModel.cpp. Without this declaration, code which includes this header instantiates the
+// empty iteration() above instead
+template<>
+void ActivityDrivenModelAbstract<ActivityAgent>::iteration();
+
 using ActivityDrivenModel = ActivityDrivenModelAbstract<ActivityAgent>;
 
 } // namespace Seldon
\ No newline at end of file
-- 
2.43.0


From 41320bab29eede9b60b8429b0843950cddd6416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:57 +0000
Subject: [PATCH 18/20] fix: generate_from_file: refuse rows that end before
 their neighbours

---
 include/network_generation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 900f016..cd29a12 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -237,6 +237,12 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             idx_column++;
         }
+
+        if( neighbour_list.back().size() != n_neighbours )
+        {
+            throw std::runtime_error(
+                fmt::format( "Invalid network file {}: neighbours missing in line '{}'", file, line ) );
+        }
     }
 
     for( size_t idx_agent = 0; idx_agent < neighbour_list.size(); idx_agent++ )
-- 
2.43.0


From b4e96359881fb508d76ae277a372c1c0ead9e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:37 +0000
Subject: [PATCH 19/20] fix: truncated_normal_distribution: keep precision when
 eps is far above the mean

With eps several sigma above the mean, cdf_gauss( eps ) rounds to one: samples (such as initial
reluctances) became inaccurate and, from about 8 sigma, infinite. Use the upper tail there.
---
 include/util/erfinv.hpp | 27 +++++++++++++++++++++++++++
 include/util/math.hpp   | 12 +++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/include/util/erfinv.hpp b/include/util/erfinv.hpp
index 6096e54..60d4941 100644
--- a/include/util/erfinv.hpp
+++ b/include/util/erfinv.hpp
@@ -109,4 +109,31 @@ T erfinv( T x )
 
     return std::copysign<T>( num / den, x );
 }
+
+// Inverse of the complementary error function for 0 <= y <= 1, which keeps its precision where 1 - y rounds to one
+template<typename T>
+T erfcinv( T y )
+{
+    if( y > 0.15 )
+    {
+        return erfinv( T( 1 ) - y );
+    }
+    if( y <= 0 )
+    {
+        return std::numeric_limits<T>::infinity();
+    }
+
+    // Abramowitz and Stegun 26.2.23, improved by Halley's method
+    const T t = std::sqrt( -2 * std::log( 0.5 * y ) );
+    T x       = ( t
+            - ( 2.515517 + t * ( 0.802853 + t * 0.010328 ) )
+                  / ( 1 + t * ( 1.432788 + t * ( 0.189269 + t * 0.001308 ) ) ) )
+          / std::sqrt( T( 2 ) );
+    for( int i = 0; i < 2; i++ )
+    {
+        const T err = ( std::erfc( x ) - y ) / ( -2 / T( sqrt_pi ) * std::exp( -x * x ) );
+        x -= err / ( 1 + x * err );
+    }
+    return x;
+}
 } // namespace Seldon::Math
\ No newline at end of file
diff --git a/include/util/math.hpp b/include/util/math.hpp
index 8f7fd53..7a89356 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -186,6 +186,12 @@ private:
         return 0.5 * ( 1 + std::erf( ( x - mean ) / ( sigma * std::sqrt( 2.0 ) ) ) );
     }
 
+    // The probability of values above x, which keeps its precision where cdf_gauss( x ) rounds to one
+    ScalarT upper_tail_gauss( ScalarT x )
+    {
+        return 0.5 * std::erfc( ( x - mean ) / ( sigma * std::sqrt( 2.0 ) ) );
+    }
+
     ScalarT pdf_gauss( ScalarT x )
     {
         return 1.0 / ( sigma * std::sqrt( 2 * Math::pi ) ) * std::exp( -0.5 * std::pow( ( ( x - mean ) / sigma ), 2 ) );
@@ -205,6 +211,10 @@ public:
 
     ScalarT inverse_cdf( ScalarT y )
     {
+        if( eps > mean )
+        {
+            return Math::erfcinv( 2.0 * ( 1.0 - y ) * upper_tail_gauss( eps ) ) * std::sqrt( 2.0 ) * sigma + mean;
+        }
         return inverse_cdf_gauss( y * ( 1.0 - cdf_gauss( eps ) ) + cdf_gauss( eps ) );
     }
 
@@ -213,7 +223,7 @@ public:
         if( x < eps )
             return 0.0;
         else
-            return 1.0 / ( 1.0 - cdf_gauss( eps ) ) * pdf_gauss( x );
+            return 1.0 / upper_tail_gauss( eps ) * pdf_gauss( x );
     }
 };
 
-- 
2.43.0


From 6b1c693146920e3fbc8f5ea3f49af6566fab9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 20/20] fix: report results that cannot be written instead of
 losing them silently

Writing to a file that cannot be opened or written completely (no permission, disk full, missing
directory) was ignored, and the run ended as if it had succeeded. The writers throw now, and a
simulation creates its output directory, as the program did already.
---
 include/agent_io.hpp   | 5 +++++
 include/network_io.hpp | 9 +++++++++
 include/simulation.hpp | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/include/agent_io.hpp b/include/agent_io.hpp
index 98ed526..538bc18 100644
--- a/include/agent_io.hpp
+++ b/include/agent_io.hpp
@@ -6,6 +6,7 @@
 #include <fmt/format.h>
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
+#include <stdexcept>
 #include <vector>
 
 namespace Seldon
@@ -59,6 +60,10 @@ void agents_to_file( const Network<AgentT> & network, const std::string & file_p
         fs << row;
     }
     fs.close();
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot write to {}.", file_path ) );
+    }
 }
 
 template<typename AgentT>
diff --git a/include/network_io.hpp b/include/network_io.hpp
index 8891d08..7f5154c 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -5,6 +5,7 @@
 #include <fmt/ostream.h>
 #include <fmt/ranges.h>
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 namespace Seldon
 {
@@ -33,6 +34,10 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
     }
     fmt::print( fs, "}}\n" );
     fs.close();
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot write to {}.", file_path ) );
+    }
 }
 
 template<typename AgentT>
@@ -90,6 +95,10 @@ void network_to_file( const Network<AgentT> & network, const std::string & file_
         fs << row;
     }
     fs.close();
+    if( !fs )
+    {
+        throw std::runtime_error( fmt::format( "Cannot write to {}.", file_path ) );
+    }
 }
 
 } // namespace Seldon
\ No newline at end of file
diff --git a/include/simulation.hpp b/include/simulation.hpp
index 9e8a9b1..5c0f6b8 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -126,6 +126,12 @@ public:
         fmt::print( "Starting simulation\n" );
         fmt::print( "-----------------------------------------------------------------\n" );
 
+        // Nothing can be written to a directory that does not exist
+        if( !output_dir_path.empty() )
+        {
+            fs::create_directories( output_dir_path );
+        }
+
         if( output_initial )
         {
             Seldon::network_to_file(
-- 
2.43.0

