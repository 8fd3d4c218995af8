From b41b084ba020f10a07d4ceb79ccae1ef437dc61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 1/9] verif hook: allow an instrumented atomic<> under
 BOOST_LOCKFREE_VERIF_HOOKS

---
 include/boost/lockfree/detail/atomic.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/lockfree/detail/atomic.hpp b/include/boost/lockfree/detail/atomic.hpp
index 2472600..71d3ad7 100644
--- a/include/boost/lockfree/detail/atomic.hpp
+++ b/include/boost/lockfree/detail/atomic.hpp
@@ -55,6 +55,9 @@
 #    include <boost/atomic.hpp>
 #else
 #    include <atomic>
+#    ifdef BOOST_LOCKFREE_VERIF_HOOKS
+#        include <lockfree_verif/atomic.hpp> // verification build: instrumented atomic<> provided by the harness
+#    endif
 #endif
 
 namespace boost { namespace lockfree {
@@ -67,7 +70,11 @@ using boost::memory_order_consume;
 using boost::memory_order_relaxed;
 using boost::memory_order_release;
 #else
+#    ifdef BOOST_LOCKFREE_VERIF_HOOKS
+using ::lockfree_verif::atomic;
+#    else
 using std::atomic;
+#    endif
 using std::memory_order_acquire;
 using std::memory_order_consume;
 using std::memory_order_relaxed;
-- 
2.43.0


From 0ddc5702486d68c5e2a87a8dc330cfb0222751df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 2/9] fix: stack: range push did not compile for fixed-sized
 stacks

prepare_node_list assigned node pointers to node::next, which is an index for
fixed_sized/capacity stacks. Go through the pool's handle conversions.
---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..7dc2193 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -292,7 +292,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -301,14 +301,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From 3d66ad02640168b730d50cd7ac394b51d53c6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 3/9] fix: stack: pushing an empty range read past the end of
 the range

prepare_node_list unconditionally dereferenced begin, and its loop then ran past
end. An empty range has nothing to push.
---
 include/boost/lockfree/stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 7dc2193..96ad03e 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,6 +284,11 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
+        if ( begin == end ) {
+            ret = begin;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
         ConstIterator it       = begin;
         node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
-- 
2.43.0


From 314e5bdd4d3a1db001078653d1bf550be6e202ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 4/9] fix: queue: unsynchronized_push did not compile for
 fixed-sized queues

It dereferenced tagged handles as pointers, but fixed_sized/capacity queues use
indices. Go through the pool's handle conversions.
---
 include/boost/lockfree/queue.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..67eb770 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -382,16 +382,19 @@ public:
             return false;
 
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                handle_type node_handle = pool.get_handle( n );
+                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
+                             memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From f3828dd07983d6d708f5e164d1028f03f7f7e78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 5/9] fix: freelist: a throwing element constructor leaked the
 node

construct() took a node out of the freelist and lost it when T's constructor
threw: memory leak for node-based containers, permanently reduced capacity for
fixed-sized ones. Return the node to the freelist before rethrowing.
---
 include/boost/lockfree/detail/freelist.hpp | 76 +++++++++++++++++++---
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..3ac48a3 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -78,8 +79,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -87,8 +98,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -96,8 +117,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -443,7 +474,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -455,7 +495,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -467,7 +516,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From d85a9d82000cbc79f93e521906045bffbe9b3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 6/9] fix: freelist: nodes leaked when the allocator threw
 during construction

The freelist_stack constructor lost the nodes it had already allocated when a
later allocation threw. Free them before rethrowing.
---
 include/boost/lockfree/detail/freelist.hpp | 40 +++++++++++++++-------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 3ac48a3..ecd955c 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -54,15 +54,24 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            free_nodes();
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
@@ -149,14 +158,7 @@ public:
 
     ~freelist_stack( void )
     {
-        tagged_node_ptr current = pool_.load();
-
-        while ( current ) {
-            freelist_node* current_ptr = current.get_ptr();
-            if ( current_ptr )
-                current = current_ptr->next;
-            Alloc::deallocate( (T*)current_ptr, 1 );
-        }
+        free_nodes();
     }
 
     bool is_lock_free( void ) const
@@ -200,6 +202,18 @@ protected: // allow use from subclasses
     }
 
 private:
+    void free_nodes( void )
+    {
+        tagged_node_ptr current = pool_.load();
+
+        while ( current ) {
+            freelist_node* current_ptr = current.get_ptr();
+            if ( current_ptr )
+                current = current_ptr->next;
+            Alloc::deallocate( (T*)current_ptr, 1 );
+        }
+    }
+
     template < bool Bounded >
     T* allocate_impl( void )
     {
-- 
2.43.0


From 1ef47924acd94122ab00c3b3a30891b5a430c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 7/9] fix: spsc_queue: range push leaked elements when a copy
 constructor threw after the wrap-around

When the second of the two sections threw, the elements already constructed in
the first section were never destroyed.
---
 include/boost/lockfree/spsc_queue.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..4803c8b 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,18 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                // nothing has been published, yet: destroy the first section
+                for ( T* it = internal_buffer + write_index; it != internal_buffer + max_size; ++it )
+                    it->~T();
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
-- 
2.43.0


From 112290fcc823a7a45227a57648dfffe9443f1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 8/9] fix: queue size wrapped around when one node was added
 for the dummy, so that a huge request was not refused

---
 include/boost/lockfree/queue.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 67eb770..1fbd260 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -11,6 +11,8 @@
 #ifndef BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 #define BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 
+#include <limits>
+
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY & BOOST_ALIGNMENT
 #include <boost/core/allocator_access.hpp>
@@ -108,6 +110,12 @@ private:
     static const bool node_based         = !( has_capacity || fixed_sized );
     static const bool compile_time_sized = has_capacity;
 
+    // one node more than elements; does not wrap around, so that the pool still sees (and refuses) an excessive request
+    static size_t nodes_for( size_t n )
+    {
+        return n == ( std::numeric_limits< size_t >::max )() ? n : n + 1;
+    }
+
     struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) node
     {
         typedef typename detail::select_tagged_handle< node, node_based >::tagged_handle_type tagged_node_handle;
@@ -229,7 +237,7 @@ public:
     explicit queue( size_type n ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( node_allocator(), n + 1 )
+        pool( node_allocator(), nodes_for( n ) )
     {
         // Don't use BOOST_STATIC_ASSERT() here since it will be evaluated when compiling
         // this function and this function may be compiled even when it isn't being used.
@@ -247,7 +255,7 @@ public:
     queue( size_type n, typename boost::allocator_rebind< node_allocator, U >::type const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, nodes_for( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
@@ -262,7 +270,7 @@ public:
     queue( size_type n, allocator const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, nodes_for( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
-- 
2.43.0


From ae531b47b1d35f74c569a8279f426b4bfd40ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 9/9] fix: align the nodes of array-based free lists for
 over-aligned element types

---
 include/boost/lockfree/detail/freelist.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index ecd955c..c59b6e2 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -19,6 +19,7 @@
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/type_traits/alignment_of.hpp>
 
 #include <boost/align/align_up.hpp>
 #include <boost/align/aligned_allocator_adaptor.hpp>
@@ -381,7 +382,12 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     // array-based freelists only support a 16bit address space.
     BOOST_STATIC_ASSERT( size < 65536 );
 
-    boost::array< char, size * sizeof( T ) + 64 > data;
+    // nodes of over-aligned types may require more than the alignment of a cache line
+    static const std::size_t node_alignment = boost::alignment_of< T >::value > BOOST_LOCKFREE_CACHELINE_BYTES
+                                                  ? boost::alignment_of< T >::value
+                                                  : BOOST_LOCKFREE_CACHELINE_BYTES;
+
+    boost::array< char, size * sizeof( T ) + node_alignment > data;
 
     // unused ... only for API purposes
     template < typename Allocator >
@@ -393,7 +399,7 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     T* nodes( void ) const
     {
         char* data_pointer = const_cast< char* >( data.data() );
-        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, BOOST_LOCKFREE_CACHELINE_BYTES ) );
+        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, std::size_t( node_alignment ) ) );
     }
 
     std::size_t node_count( void ) const
-- 
2.43.0

