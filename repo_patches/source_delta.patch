From 5326159b54c83e4ac463ba07bd5ac50aff5c9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 01/41] fix: size the signal queue by the size of a signal when
 copying it

---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 230bd454f9a5ca0346b31c56c402d2064a508efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 02/41] fix: keep the queue statistics alive when a queue is
 resized

---
 raftinc/fifoabstract.tcc            | 13 +++++++++----
 raftinc/ringbufferheap_abstract.tcc |  6 +++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..7c2ab23 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,13 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        assert( datamanager.get() != nullptr );
+        /** 
+         * owned by the FIFO and not by the buffer, the
+         * buffer is replaced (and deleted) by a resize
+         */
+        producer_data.write_stats = &producer_data.write_stats_store;
+        consumer_data.read_stats  = &consumer_data.read_stats_store;
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -62,6 +65,7 @@ protected:
          * for cache performance.
          */
         Blocked                     *write_stats = nullptr;
+        Blocked                     write_stats_store;
     } producer_data;
    
    
@@ -74,6 +78,7 @@ protected:
         ptr_map_t                   *in         = nullptr;
         ptr_set_t                   *in_peek    = nullptr;
         Blocked                     *read_stats = nullptr;
+        Blocked                     read_stats_store;
     } consumer_data;
     
     /** 
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..7512385 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->consumer_data.read_stats->all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->producer_data.write_stats->all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( *(this)->producer_data.write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
-- 
2.43.0


From 27d826d6c77d526c9e270ee418fd95b5ac766917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 03/41] fix: do not keep the buffer access flags in the buffer
 that a resize deletes

---
 raftinc/datamanager.tcc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..6c89227 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -51,12 +51,6 @@ public:
       (this)->buffer = buffer;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
    }
 
    inline bool is_resizeable() noexcept 
@@ -229,8 +223,13 @@ private:
 
    bool                  resizeable          = true;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, one for the producer and the
+    * other for the consumer. These belong to the manager and not
+    * to the buffer, they're accessed in order to find out if the 
+    * buffer is about to be replaced.
+    */
+   ThreadAccess thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
-- 
2.43.0


From f325b5ca03eb7e90f29f8baa116e82ca6d1dfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 04/41] fix: let a resize proceed on an empty queue

---
 raftinc/datamanager.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 6c89227..0128479 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -117,6 +117,12 @@ public:
           */
          const auto rpt( Pointer::val( buff_ptr->read_pt  ) );
          const auto wpt( Pointer::val( buff_ptr->write_pt ) );
+         if( rpt == wpt )
+         {
+            /** nothing to re-order if empty, a writer might wait for more room **/
+            return( Pointer::wrapIndicator( buff_ptr->read_pt ) ==
+                    Pointer::wrapIndicator( buff_ptr->write_pt ) );
+         }
          return( rpt < wpt );
       } );
       
-- 
2.43.0


From e03766b36cf0805616e5875304094324e69e4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 05/41] fix: a reader waiting in pop must not hold off a resize
 for ever

---
 raftinc/ringbufferheap.tcc | 44 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..d284bcc 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -342,15 +342,13 @@ protected:
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         /** leave while waiting so that a resize can proceed **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
+            rd_stats  = 1;
          }
          raft::yield();
       }
@@ -775,15 +773,13 @@ protected:
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         /** leave while waiting so that a resize can proceed **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
+            rd_stats  = 1;
          }
          raft::yield();
       }
@@ -1249,17 +1245,15 @@ protected:
                   "Accessing closed port with pop call, exiting!!" );
             }
          }
-         else
+         /** leave while waiting so that a resize can proceed **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         /** handle stats **/
+         auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
+         if( rd_stats == 0 )
          {
-            (this)->datamanager.exitBuffer( dm::pop );
-            /** handle stats **/
-            auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
-            if( rd_stats == 0 )
-            {
-               rd_stats  = 1;
-            }
-            raft::yield();
+            rd_stats  = 1;
          }
+         raft::yield();
       }
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-- 
2.43.0


From 95534a1579607e6fbca8832d8e6989edd64dc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 06/41] fix: guard close, capacity and head signal accesses
 against a concurrent resize

---
 raftinc/ringbufferheap_abstract.tcc | 55 ++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 7512385..e66e8b9 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -113,8 +113,9 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
+      auto * const ptr( (this)->enterSize() );
       ptr->is_valid = false;
+      (this)->datamanager.exitBuffer( dm::size );
       return;
    }
    
@@ -127,8 +128,10 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      auto * const ptr( (this)->enterSize() );
+      const bool invalid( ! ptr->is_valid );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( invalid );
    }
 
 
@@ -140,7 +143,10 @@ TOP:
     */
    virtual std::size_t   space_avail()
    {
-      return( (this)->datamanager.get()->max_cap - size() );
+      auto * const ptr( (this)->enterSize() );
+      const auto avail( ptr->max_cap - size() );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( avail );
    }
   
    /**
@@ -150,7 +156,10 @@ TOP:
     */
    virtual std::size_t   capacity() 
    {
-      return( (this)->datamanager.get()->max_cap );
+      auto * const ptr( (this)->enterSize() );
+      const auto cap( ptr->max_cap );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( cap );
    }
 
    
@@ -210,6 +219,26 @@ TOP:
    
 
 protected:
+   /**
+    * enterSize - enters the buffer with the size key once no
+    * resize is in progress, so that the buffer isn't replaced
+    * until the caller calls exitBuffer( dm::size ).
+    * @return pointer to current buffer
+    */
+   auto enterSize() noexcept
+   {
+      for( ;; )
+      {
+         (this)->datamanager.enterBuffer( dm::size );
+         if( (this)->datamanager.notResizing() )
+         {
+            return( (this)->datamanager.get() );
+         }
+         (this)->datamanager.exitBuffer( dm::size );
+         raft::yield();
+      }
+   }
+
    /**
     * setPtrMap
     */
@@ -248,19 +277,11 @@ protected:
     */
    virtual raft::signal signal_peek()
    {
-      /** 
-       * NOTE: normally I'd say we need exclusion here too,
-       * however, since this is a copy and we want this to
-       * be quick since it'll be used quite often in tight
-       * loops I think we'll be okay with getting the current
-       * pointer to the head of the queue and returning the
-       * value.  Logically copying the queue shouldn't effect
-       * this value since the elements all remain in their 
-       * location relative to the start of the queue.
-       */
-      auto * const buff_ptr( (this)->datamanager.get() );
+      auto * const buff_ptr( (this)->enterSize() );
       const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-      return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      const raft::signal sig( buff_ptr->signal[ read_index ] /* make copy */ );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( sig ); 
    }
    /**
     * signal_pop - special function fo rthe scheduler to 
-- 
2.43.0


From c62ca54eb291b91b99fa2cb0b723881b8e6a5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 07/41] fix: size must not read the buffer after leaving it

---
 raftinc/ringbufferheap_abstract.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index e66e8b9..5ceeace 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -61,8 +61,9 @@ TOP:
                /** expect most of the time to be full **/
                if( R_LIKELY( wrap_read < wrap_write ) )
                {
+                  const auto full_size( buff_ptr->max_cap );
                   (this)->datamanager.exitBuffer( dm::size );
-                  return( buff_ptr->max_cap );
+                  return( full_size );
                }
                else if( wrap_read > wrap_write )
                {
@@ -90,8 +91,9 @@ TOP:
             }
             else if( rpt > wpt )
             {
+               const auto wrapped_size( buff_ptr->max_cap - rpt + wpt );
                (this)->datamanager.exitBuffer( dm::size );
-               return( buff_ptr->max_cap - rpt + wpt ); 
+               return( wrapped_size ); 
             }
             (this)->datamanager.exitBuffer( dm::size );
             return( 0 );
-- 
2.43.0


From 149aa9601900bd9a64dcc7ab0c34ec6c51fc8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 08/41] fix: peek_range must index signals from the start of
 the signal queue

---
 raftinc/ringbufferheap.tcc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index d284bcc..5fda41b 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -463,7 +463,8 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      /** base of the signal queue, indexed in the same way as the store **/
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -901,7 +902,8 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      /** base of the signal queue, indexed in the same way as the store **/
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1384,7 +1386,8 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      /** base of the signal queue, indexed in the same way as the store **/
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From 0f3c5b62406fc5e2bb539b22088d8277fd71b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 09/41] fix: a queue over user memory needs one signal slot per
 element

---
 raftinc/bufferdata.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..a6c7a25 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -63,7 +63,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -208,7 +208,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
-- 
2.43.0


From 8c38114bfa9e14b8a3ddb44e43db6b35ea57edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 10/41] fix: send_range must put the signal on the last element
 of the range

---
 raftinc/ringbufferheap.tcc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 5fda41b..b5aae38 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -92,8 +92,15 @@ public:
         return;
       }
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      auto * const buff_ptr( (this)->datamanager.get() );
+      if( (this)->producer_data.n_allocated > 0 )
+      {
+         /** the signal belongs to the last item of the range **/
+         const size_t last_index( ( Pointer::val( buff_ptr->write_pt ) +
+                                    (this)->producer_data.n_allocated - 1 ) %
+                                  buff_ptr->max_cap );
+         buff_ptr->signal[ last_index ] = signal;
+      }
       /* only need to inc one more **/
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
@@ -536,8 +543,14 @@ public:
         }
         auto * const buff_ptr( (this)->datamanager.get() );
         /** should be the end of the write, regardless of which allocate called **/
-        const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
-        buff_ptr->signal[ write_index ] = signal;
+        if( (this)->producer_data.n_allocated > 0 )
+        {
+           /** the signal belongs to the last item of the range **/
+           const size_t last_index( ( Pointer::val( buff_ptr->write_pt ) +
+                                      (this)->producer_data.n_allocated - 1 ) %
+                                    buff_ptr->max_cap );
+           buff_ptr->signal[ last_index ] = signal;
+        }
         /* only need to inc one more, the rest have already**/
         auto &n_allocated( (this)->producer_data.n_allocated );
         Pointer::incBy( buff_ptr->write_pt,
@@ -978,8 +991,15 @@ public:
    {
       if( ! (this)->producer_data.allocate_called ) return;
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      auto * const buff_ptr( (this)->datamanager.get() );
+      if( (this)->producer_data.n_allocated > 0 )
+      {
+         /** the signal belongs to the last item of the range **/
+         const size_t last_index( ( Pointer::val( buff_ptr->write_pt ) +
+                                    (this)->producer_data.n_allocated - 1 ) %
+                                  buff_ptr->max_cap );
+         buff_ptr->signal[ last_index ] = signal;
+      }
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
-- 
2.43.0


From 52df4c7f31d0682050706370661f88287a623fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 11/41] fix: deallocate must destroy the allocated object, not
 the head of the queue

---
 raftinc/ringbufferheap.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index b5aae38..0c351ef 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -499,9 +499,9 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
-      /** destruct **/
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
+      /** destruct the allocated (unsent) object **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
-- 
2.43.0


From d4a2fd2e8d09888529a861e0ef3ed53b6c9abc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 12/41] fix: do not destroy the objects of a user provided
 buffer

---
 raftinc/ringbufferheap.tcc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 0c351ef..9e0e073 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -605,8 +605,14 @@ protected:
          const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
          auto *ptr =
             reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
-         /** call destructor direct, faster than recyle func **/
-         ptr->~T();
+         /** 
+          * call destructor direct, faster than recyle func, objects in 
+          * user provided memory belong to the user
+          */
+         if( ! buff_ptr->external_alloc )
+         {
+            ptr->~T();
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
@@ -812,8 +818,12 @@ protected:
        * we should inline destruct it to fix bug
        * #76 -jcb 18Nov2018
        * - applying same fix to out-of-band objects
+       * - objects in user provided memory belong to the user
        */
-      ( &buff_ptr->store[ read_index ] )->~T();
+      if( ! buff_ptr->external_alloc )
+      {
+         ( &buff_ptr->store[ read_index ] )->~T();
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
-- 
2.43.0


From 9776f102cb260a04a9c0c9019201d8b187e376a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 13/41] fix: release the memory of a popped element stored by
 reference

---
 raftinc/ringbufferheap.tcc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 9e0e073..3144b1e 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1302,9 +1302,24 @@ protected:
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
       /**
-       * fix for bug #76 - jcb 18Nov2018
+       * fix for bug #76 - jcb 18Nov2018, release the memory as well. If
+       * there's a reference from an earlier peek the object might have been
+       * passed on, so leave it to the garbage collector as recycle does.
        */
-      head->~T();
+      if( (this)->consumer_data.in_peek->find( reinterpret_cast< ptr_t >( head ) ) !=
+            (this)->consumer_data.in_peek->cend() )
+      {
+         (this)->consumer_data.in->insert(
+            std::make_pair( reinterpret_cast< std::uintptr_t >( head ),
+                            []( void * ptr )
+                            {
+                                delete( reinterpret_cast< T* >( ptr ) );
+                            } ) );
+      }
+      else
+      {
+         delete( head );
+      }
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From c6b217d71ec58d1cdb6b74a5ceb84da04d7a6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:15 +0000
Subject: [PATCH 14/41] fix: a copied scoped write slot keeps the signal set on
 it

---
 raftinc/autorelease.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raftinc/autorelease.tcc b/raftinc/autorelease.tcc
index 1584b2e..d8b3c2d 100644
--- a/raftinc/autorelease.tcc
+++ b/raftinc/autorelease.tcc
@@ -198,6 +198,7 @@ public:
 
    autorelease( const autorelease< T, allocatetype > &other ) : 
       item( other.item ), 
+      signal( other.signal ),
       fifo( other.fifo )
    {
       const_cast< autorelease< T, allocatetype >& >( other ).copied = true;
-- 
2.43.0


From e5bd0310fcffcf5f5008bfa9cef8c01258b305bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 15/41] fix: a refused link must not change the buffer size of
 an existing one

---
 raftinc/mapbase.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..4634e8b 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,13 +129,18 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
 
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
+        /** 
+         * set only once the link is made, a refused link 
+         * must not change the settings of an existing one 
+         */
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
         
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
-- 
2.43.0


From 10ea8c042e21ebe02c4ecd59bb895bb7b0c969ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 16/41] fix: joining a chain of kernels must attach to its
 first and continue from its last kernel

---
 raftinc/kpair.hpp |  7 +++++++
 src/kpair.cpp     | 48 +++++++++++++++++++++++++++++++----------------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..ffa05c9 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,13 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /**
+     * attach - continue this pair with the chain starting at 
+     * first, all pairs of that chain get the head of this one.
+     * @param   first - kpair&, first pair of a chain
+     */
+    void attach( kpair &first ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..368ab48 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -59,10 +59,10 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
-    head        = this;
-    next        = &n;
+    /** n is the last pair of its chain, attach to the first **/
+    attach( *n.head );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +76,12 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.dst), *(b.head->src) )
 {
     head = a.head;
     a.next = this;
-    b.head = a.head;
-    next = &b;
+    /** b is the last pair of its chain, attach to the first **/
+    attach( *b.head );
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +123,17 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+void
+kpair::attach( kpair &first ) noexcept
+{
+    next = &first;
+    for( auto *p( next ); p != nullptr; p = p->next )
+    {
+        p->head = head;
+    }
+    return;
+}
+
 void 
 kpair::setOoO() noexcept
 {
@@ -256,15 +267,17 @@ operator <= ( raft::kernel_wrapper &&a, raft::kernel_wrapper &&b )
 kpair&
 operator <= ( raft::kernel &a, kpair &b )
 {
-    auto *ptr( new kpair( a, b, true, false ) );
-    return( *ptr );
+    /** the chain goes on from the end of b **/
+    new kpair( a, b, true, false );
+    return( b );
 }
 
 kpair&
 operator <= ( raft::kernel_wrapper &&w, kpair &b )
 {
-    auto *ptr( new kpair( w, b, true, false ) );
-    return( *ptr );
+    /** the chain goes on from the end of b **/
+    new kpair( w, b, true, false );
+    return( b );
 }
 
 
@@ -299,20 +312,23 @@ operator >= ( kpair &a, raft::kernel &b )
 kpair&
 operator >= ( kpair &a, kpair &b )
 {
-    auto *ptr( new kpair( a, b, false, true ) );
-    return(*ptr);
+    /** the chain goes on from the end of b **/
+    new kpair( a, b, false, true );
+    return( b );
 }
 
 kpair& 
 operator >= ( raft::kernel &a, kpair &b )
 {
-    auto *ptr( new kpair( a, b, false, true ) );
-    return(*ptr);
+    /** the chain goes on from the end of b **/
+    new kpair( a, b, false, true );
+    return( b );
 }
 
 kpair& 
 operator >= ( raft::kernel_wrapper &&w, kpair &b )
 {
-    auto *ptr( new kpair( w, b, false, true ) );
-    return(*ptr);
+    /** the chain goes on from the end of b **/
+    new kpair( w, b, false, true );
+    return( b );
 }
-- 
2.43.0


From 41e6c5a06d1a4b9d9c9dfb70651a0bad7a8dc066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 17/41] fix: two port names in front of a chain on the right
 name the input first

---
 src/kpair.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kpair.cpp b/src/kpair.cpp
index 368ab48..fbc65ee 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <utility>
 
 #include "kpair.hpp"
 #include "kernel.hpp"
@@ -127,6 +128,14 @@ void
 kpair::attach( kpair &first ) noexcept
 {
     next = &first;
+    /** 
+     * two names were given, the pair constructed first took
+     * the first one, which is the one of the input port
+     */
+    if( has_dst_name && first.has_src_name )
+    {
+        std::swap( dst_name, first.src_name );
+    }
     for( auto *p( next ); p != nullptr; p = p->next )
     {
         p->head = head;
-- 
2.43.0


From bf60ea543902cfced1bd343ec6170075da10777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 18/41] fix: duplicate every kernel of a chain in front of a
 join

---
 src/map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..b40c4f0 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -653,7 +653,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 09e0cd21ee7550d8210f14b4d0fe4b399fb8b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 19/41] fix: the source of a joined chain is its first kernel

---
 src/map.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map.cpp b/src/map.cpp
index b40c4f0..c51d462 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -621,6 +621,8 @@ raft::map::inline_dup_join( kernels_t &groups,
             next->has_dst_name = true;
             joink( next );
             temp_groups.back()->emplace_back( next->dst );
+            /** the group is returned as the sources of this chain **/
+            gp->front() = next->head->src;
             /**
              * at this point a single chain has been added
              * but we need to check for the next one to make
-- 
2.43.0


From 4aeadaff72690f1bb33f25bd8f5674a2e9af5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 20/41] fix: group joined kernels by the split around the
 closed one

---
 src/map.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index c51d462..d579ba4 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,11 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** 
+     * this join closes the innermost split, the kernels joined 
+     * to are the out-edges of the split around it (if any). 
+     */
+    split_stack.pop();
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +558,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = split_stack.empty() ? groups.size() : split_stack.top();
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +582,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0


From eb8762f3bc1ace1aa7cde215b7ba08a22ea291e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 21/41] fix: count kernels over existing memory so that kernel
 ids are unique

---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From e8e4cca11c5cdab4e9abde5056bc1f6c3aecf276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 22/41] fix: an unconnected port found by a traversal raises
 the error asked for

---
 src/graphtools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..f10b281 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -125,7 +125,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
          else
          if( connected_error )
          {
-            assert( false );
             std::stringstream ss;
             ss << "Unconnected port detected at " <<
                common::printClassName( *k ) <<
-- 
2.43.0


From 10c8d6cd73e368a5632fc7b7b1fa78a361bb8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 23/41] fix: an unconnected port must not end a traversal

---
 src/graphtools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index f10b281..7214bdb 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -134,7 +134,8 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
-         if( visited_set.find( source.other_kernel ) == visited_set.end() )
+         if( source.other_kernel != nullptr &&
+             visited_set.find( source.other_kernel ) == visited_set.end() )
          {
             queue.push( source.other_kernel );
             visited_set.insert( source.other_kernel );
-- 
2.43.0


From f668877e765581b0d459b2026cc75238656bac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 24/41] fix: keep separate growth accounts for separate links

---
 src/dynalloc.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/dynalloc.cpp b/src/dynalloc.cpp
index 8e7bd9f..70ed416 100644
--- a/src/dynalloc.cpp
+++ b/src/dynalloc.cpp
@@ -23,6 +23,7 @@
 #include <iomanip>
 #include <map>
 #include <cassert>
+#include <cstdint>
 
 #include "graphtools.hpp"
 #include "dynalloc.hpp"
@@ -46,18 +47,12 @@ dynalloc::~dynalloc()
 std::size_t
 dynalloc::hash( PortInfo &a, PortInfo &b )
 {
-   union{
-      std::size_t      all;
-      struct a_and_b{
-         std::uint32_t a;
-         std::uint32_t b;
-      } ab;
-   } u;
-   const auto ta( (std::uint64_t)(& a ) );
-   const auto tb( (std::uint64_t)(& b ) );
-   u.ab.a = ta & 0xffff;
-   u.ab.b = tb & 0xffff;
-   return( u.all );
+   /** 
+    * an output port is the source of exactly one link, so its 
+    * address identifies the link, two links never share an account
+    */
+   UNUSED( b );
+   return( static_cast< std::size_t >( reinterpret_cast< std::uintptr_t >( &a ) ) );
 }
 
 
-- 
2.43.0


From 649deed3992c04013e73b2676695b9b2d113d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:12 +0000
Subject: [PATCH 25/41] fix: popping without a destination throws the item away
 as documented

---
 raftinc/ringbufferheap.tcc | 65 +++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 3144b1e..2a54a0d 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -365,12 +365,14 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       Pointer::inc( buff_ptr->read_pt );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -809,23 +811,29 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
       /** 
-       * we know the object is inline constructed, 
-       * we should inline destruct it to fix bug
-       * #76 -jcb 18Nov2018
-       * - applying same fix to out-of-band objects
-       * - objects in user provided memory belong to the user
+       * without a destination there's only a signal in this slot,
+       * no object has been constructed
        */
-      if( ! buff_ptr->external_alloc )
+      if( ptr != nullptr )
       {
-         ( &buff_ptr->store[ read_index ] )->~T();
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+         /** 
+          * we know the object is inline constructed, 
+          * we should inline destruct it to fix bug
+          * #76 -jcb 18Nov2018
+          * - applying same fix to out-of-band objects
+          * - objects in user provided memory belong to the user
+          */
+         if( ! buff_ptr->external_alloc )
+         {
+            ( &buff_ptr->store[ read_index ] )->~T();
+         }
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
       }
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -1238,6 +1246,11 @@ protected:
          }
          (this)->producer_data.write_stats->bec.count++;
        }
+       else
+       {
+          /** signal only, there's no object in this slot **/
+          *( reinterpret_cast< T** >( &buff_ptr->store[ write_index ] ) ) = nullptr;
+       }
       buff_ptr->signal[ write_index ]         = signal;
 #if defined(__aarch64__)
       asm volatile( "dmb ishst" : : : "memory" ); /** memory write barrier **/
@@ -1293,13 +1306,15 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
       auto *head( reinterpret_cast< T* >( buff_ptr->store[ read_index ] ) );
-      *item = *head;
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = *head;
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       Pointer::inc( buff_ptr->read_pt );
       /**
        * fix for bug #76 - jcb 18Nov2018, release the memory as well. If
-- 
2.43.0


From 49feaee940dc049ba521a15e8a91789c2b46f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 26/41] fix: an element passed on to several outputs is handed
 over to only one of them

---
 raftinc/ringbufferheap.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2a54a0d..bad7d24 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1234,10 +1234,12 @@ protected:
 
          if( (this)->producer_data.out_peek->find(
             reinterpret_cast< std::uintptr_t >( item ) ) != 
-                (this)->producer_data.out_peek->cend() )
+                (this)->producer_data.out_peek->cend() &&
+            /** only one output can own it, any other one gets a copy **/
+            (this)->producer_data.out->insert( 
+                reinterpret_cast< std::uintptr_t >( item ) ).second )
          {
             //this was from a previous peek call
-            (this)->producer_data.out->insert( reinterpret_cast< std::uintptr_t >( item ) );
             *b_ptr = item;
          }
          else /** hope we have a move/copy constructor **/
-- 
2.43.0


From 96cbc9a48f20007cdaebb713259c97c1f873a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 27/41] fix: reclaim consumed elements without reading past the
 last one

---
 src/schedule.cpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..6ab73d6 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -273,30 +273,19 @@ Schedule::fifo_gc( ptr_map_t * const in,
                    ptr_set_t * const out,
                    ptr_set_t * const peekset )
 {
-    auto in_begin( in->begin() ), in_end( in->end() );
-    auto out_beg( out->begin() ), out_end( out->end() );
-    while( out_beg != out_end )
+    for( auto &consumed : *in )
     {
-        if( (*out_beg) != (*in_begin).first )
+        /** 
+         * elements that were passed on belong to the reader downstream, 
+         * one that is passed on but not yet consumed stays in out until 
+         * it is.
+         */
+        if( out->erase( consumed.first ) == 0 )
         {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
+            consumed.second( reinterpret_cast< void* >( consumed.first ) );
         }
-        else
-        {
-            ++out_beg;
-            ++in_begin;
-        }
-    }
-    while( in_begin != in_end )
-    {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
     }
     in->clear();
-    out->clear();
     peekset->clear();
     return;
 }
-- 
2.43.0


From fa1178b69c6917ce8bed2bdc1c1d7c387630147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 28/41] fix: a split keeps the items that found no room at its
 input

---
 raftinc/split.tcc       | 16 +++++++---------
 raftinc/splitmethod.hpp |  8 +++++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..9f85b8e 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -50,17 +50,15 @@ public:
       auto &output_port( input[ "0" ] );
 #endif
       const auto avail( output_port.size() );
-      auto range( output_port.template peek_range< T >( avail ) );
-      /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      std::size_t sent( 0 );
       {
-         /* recycle item */
-         output_port.recycle( avail );
-      }
-      else
-      {
-         output_port.unpeek();
+         /** range is released (unpeek) at the end of this scope **/
+         auto range( output_port.template peek_range< T >( avail ) );
+         /** split funtion selects a fifo using the appropriate split method **/
+         sent = split_func.send( range, output );
       }
+      /** recycle what was sent, the rest stays here till there's room **/
+      output_port.recycle( sent );
       return( raft::proceed );
    }
 
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..b291b57 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,14 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  std::size_t - number of items sent from the front of range,
+    *          these might be fewer than there are if the output is full.
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +82,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 5a865f3ca05db259b0e4af21a753b3e34fe35833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 29/41] fix: random variate source sends exactly the number
 asked for

---
 raftinc/random.tcc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/raftinc/random.tcc b/raftinc/random.tcc
index 48f9e5a..15353b3 100644
--- a/raftinc/random.tcc
+++ b/raftinc/random.tcc
@@ -77,13 +77,15 @@ public:
     {
         for( auto &p : output )
         {
-            p.push( dist( gen ) );
-            if( ++count_of_sent >= N )
+            /** nothing (more) to send, might not have been asked for any **/
+            if( count_of_sent >= N )
             {
-                return( raft::stop );
+                break;
             }
+            p.push( dist( gen ) );
+            ++count_of_sent;
         }
-        return( raft::proceed );
+        return( count_of_sent >= N ? raft::stop : raft::proceed );
     }
 
 private:
-- 
2.43.0


From efc31313d201368a7cf75c05d3fd78201e592cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 30/41] fix: for_each without a port count uses one port

---
 raftinc/foreach.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/foreach.tcc b/raftinc/foreach.tcc
index 571ba98..0bae5ff 100644
--- a/raftinc/foreach.tcc
+++ b/raftinc/foreach.tcc
@@ -30,8 +30,8 @@ public:
              const std::size_t nports = 0 ) : kernel( ptr, 
                                                       nitems * sizeof( T ) )
    {
-      /** if nports == 0, then runtime will specify **/
-      output.addInPlacePorts< T >( nports ); 
+      /** if nports == 0, then a single port covers everything **/
+      output.addInPlacePorts< T >( nports == 0 ? 1 : nports ); 
       /** no input ports since we're using the existing allocation **/
    }
    
-- 
2.43.0


From 67a155bb0649355196188e903e569e6fc80660c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 31/41] fix: a port with an empty share of a user array gets an
 empty stream

---
 src/allocate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocate.cpp b/src/allocate.cpp
index 50a271e..842b3f0 100644
--- a/src/allocate.cpp
+++ b/src/allocate.cpp
@@ -91,7 +91,8 @@ Allocate::allocate( PortInfo &a, PortInfo &b, void *data )
    auto &func_map( a.const_map[ Type::Heap ] );
    auto test_func( (*func_map)[ false ] );
 
-   if( a.existing_buffer != nullptr )
+   /** a port whose share of the user's array is empty gets an empty stream **/
+   if( a.existing_buffer != nullptr && a.nitems != 0 )
    {
       fifo = test_func( a.nitems,
                         a.start_index,
-- 
2.43.0


From a6b8fa7133ddb205c5feab943a8d6a9a59465b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 32/41] fix: a numeric range stays inside its result

---
 raftinc/utility.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 20eb7d5..ca6917c 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -65,11 +65,9 @@ range( const A a,
   {
      const auto cap( (b - a + delta) / delta );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::islessequal( i, b + delta ); i += delta, index++ )
+     for( std::size_t index( 0 ); index < out.size(); index++ )
      {
-        out[ index ] = i;
+        out[ index ] = a + ( static_cast< common_t< A, B > >( index ) * delta );
      }
      return( std::move( out ) );
   }
@@ -77,11 +75,9 @@ range( const A a,
   {
      const auto cap( (a - b + delta ) / delta );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::isgreaterequal( i, b - delta ); i -= delta, index++ )
+     for( std::size_t index( 0 ); index < out.size(); index++ )
      {
-        out[ index ] = i;
+        out[ index ] = a - ( static_cast< common_t< A, B > >( index ) * delta );
      }
      return( std::move( out ) );
   }
-- 
2.43.0


From 1c3d6b8b76aac05e3c5058aadb5ff828bbb51abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 33/41] fix: raftstat includes its header from where it is

---
 raftstat | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftstat b/raftstat
index 2dc0aff..e331f44 100644
--- a/raftstat
+++ b/raftstat
@@ -1,3 +1,3 @@
 /** streaming stat stuffs for raft **/
 
-#include "./raft_dir/streamingstat.tcc"
+#include "./raftinc/streamingstat.tcc"
-- 
2.43.0


From ff3bf54e6df715cc4a8e3b64c95f61b5be010507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 34/41] fix: statistics helpers compile, divide by the number
 of values and handle negative ones

---
 raftinc/stat.tcc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/raftinc/stat.tcc b/raftinc/stat.tcc
index ca39428..5e45655 100644
--- a/raftinc/stat.tcc
+++ b/raftinc/stat.tcc
@@ -25,6 +25,7 @@
 #include <cstdint>
 #include <cstddef>
 #include <cmath>
+#include <limits>
 
 namespace raft
 {
@@ -47,7 +48,7 @@ public:
       {
          r += val;
       }
-      return( static_cast< R >( r / c.size() ) );
+      return( static_cast< R >( r / static_cast< R >( c.size() ) ) );
    }
 
 
@@ -62,14 +63,14 @@ public:
     */
    template < typename R, typename A >
    static
-   R mean( const A const * arr, const std::size_t N )
+   R mean( const A * const arr, const std::size_t N )
    {
       R r( static_cast< R >( 0 ) );
-      for( auto i( 0 ); i < N; i++ )
+      for( std::size_t i( 0 ); i < N; i++ )
       {
          r += arr[ i ];
       }
-      return( static_cast< R >( r / N ) );
+      return( static_cast< R >( r / static_cast< R >( N ) ) );
    }
 
    /**
@@ -85,12 +86,12 @@ public:
    T standardDeviation( const T mean, Container &&c )
    {
       T sumsq( static_cast< T >( 0 ) );
-      for( const auto val : arr )
+      for( const auto val : c )
       {
          const auto term( val - mean );
          sumsq += ( term * term );
       }
-      return( static_cast< T >( std::sqrt( sumsq ) ) );
+      return( static_cast< T >( std::sqrt( sumsq / static_cast< T >( c.size() ) ) ) );
    }
 
    /**
@@ -104,16 +105,16 @@ public:
     */
    template < typename T, typename A >
    static
-   T standardDeviation( const T mean, const A const * arr,
+   T standardDeviation( const T mean, const A * const arr,
                            const std::size_t N )
    {
       T sumsq( static_cast< T >( 0 ) );
-      for( auto i( 0 ); i < N; i++ )
+      for( std::size_t i( 0 ); i < N; i++ )
       {
          const auto term( arr[ i ] - mean );
          sumsq += ( term * term );
       }
-      return( static_cast< T >( std::sqrt( sumsq ) ) );
+      return( static_cast< T >( std::sqrt( sumsq / static_cast< T >( N ) ) ) );
    }
    
    /** 
@@ -152,7 +153,7 @@ public:
    {
       using c_type = typename std::remove_reference< decltype( (*c.begin()) )>::type;
       c_type min( std::numeric_limits< c_type >::max() );
-      c_type max( std::numeric_limits< c_type >::min() );
+      c_type max( std::numeric_limits< c_type >::lowest() );
       for( const auto val : c )
       {
          if( std::isless( val, min ) )
@@ -189,7 +190,7 @@ public:
    {
       using c_type = typename std::remove_reference< decltype( (*c.begin()) )>::type;
       c_type min( std::numeric_limits< c_type >::max() );
-      c_type max( std::numeric_limits< c_type >::min() );
+      c_type max( std::numeric_limits< c_type >::lowest() );
       for( const auto val : c )
       {
          if( std::isless( val, min ) )
@@ -237,7 +238,7 @@ public:
    {
       using c_type = typename std::remove_reference< decltype( (*c.begin()) )>::type;
       c_type min( std::numeric_limits< c_type >::max() );
-      c_type max( std::numeric_limits< c_type >::min() );
+      c_type max( std::numeric_limits< c_type >::lowest() );
       for( const auto val : c )
       {
          if( std::isless( val,  min ) )
-- 
2.43.0


From 626dfd511791764a662d04332fd5e03741c770db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 35/41] fix: search reports the position of a match once
 relative to the text

---
 raftinc/search.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..dd3d348 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,7 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From c04b9150492b2c4f84bfb4d05e58f912019476b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 36/41] fix: a copied file chunk keeps its index

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..4c26652 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From 6e794e9ade2fcea9dcdc4e161db39f1c752a64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 37/41] fix: reading a file in overlapping chunks covers the
 whole file

---
 raftinc/fileio.tcc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..5fc1c61 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -19,6 +19,7 @@
  */
 #ifndef RAFTFILEIO_TCC
 #define RAFTFILEIO_TCC  1
+#include <cassert>
 #include <cstdlib>
 #include <cstdio>
 #include <cstddef>
@@ -83,14 +84,14 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
-      {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
-      }
-      else
-      {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
-      }
+      /** 
+       * the first chunk holds up to chunk size - 1 characters (the last one is 
+       * the null terminator), each further one repeats chunk_offset of them 
+       */
+      const std::int64_t first( chunktype::getChunkSize() - 1 );
+      const std::int64_t step( first - chunk_offset );
+      assert( step > 0 );
+      iterations = length > first ? 1 + ( ( length - first + step - 1 ) / step ) : 1;
    }
 
    virtual raft::kstatus run()
@@ -117,12 +118,12 @@ public:
             chunk.buffer[ num_read ] = '\0';
             chunk.length = num_read;
             port.send(
-               ( iterations - output.count() /* num ports */ ) > 0 ?
+               ( iterations - static_cast< std::int64_t >( output.count() ) /* num ports */ ) > 0 ?
                   raft::none :
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
                            "iterations must be a signed type" );
-            if( --iterations < 0 )
+            if( --iterations <= 0 )
             {
                return( raft::stop );
             }
-- 
2.43.0


From 3826827c48ed59a32a1ceedacc42fa2a02dec177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 38/41] fix: basic partitioning with an unknown number of cores

---
 src/partition_basic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/partition_basic.cpp b/src/partition_basic.cpp
index 822a325..f5fd202 100644
--- a/src/partition_basic.cpp
+++ b/src/partition_basic.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <thread>
 #include "partition_basic.hpp"
 
@@ -5,7 +6,8 @@
 void
 partition_basic::partition( kernelkeeper &c )
 {
-    const auto num_cores( std::thread::hardware_concurrency() );
+    /** zero means the count isn't known **/
+    const auto num_cores( std::max( std::thread::hardware_concurrency(), 1u ) );
     core_id_t i( 0 );
     auto &container( c.acquire() );
     for( auto *kernel : container )
-- 
2.43.0


From 6a080235d8440d7ba826742fe4afe852de7392f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 39/41] fix: a copied print kernel has as many inputs as the
 original

---
 raftinc/print.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..61003b2 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
-- 
2.43.0


From b8ff701f93d9c9b613e14e8c5fc2670f6f732130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 40/41] fix: an execution thread knows its core before it
 starts

---
 raftinc/simpleschedule.hpp | 12 ++++++++----
 src/simpleschedule.cpp     |  5 +++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..3cefeb7 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t loc ) : k( k ),
+                                                     finished( fin ),
+                                                     loc( loc ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,10 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t loc ) : data( kernel, 
+                                                   &finished,
+                                                   loc ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..1a4397e 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,9 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      /** the thread starts at once, it must know its core by then **/
+      auto * const th_info( new thread_info_t( kernel,
+                                               kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From 60b8977950c64f582e20348f48b2fced2eb96a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 41/41] fix: growing a buffer must not overtake its own
 announcement

resize() stored the resizing flag and then read the access flags of the
two ends. The store could still sit in the store buffer of the core while
those reads were done, so an end that entered the buffer in between saw
no growth and was not seen either: elements were lost and the old buffer
was used after it had been freed. On the other side the atomic counter of
size() and space_avail() orders the announcement before the second look
at the flag.
---
 raftinc/datamanager.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 0128479..7ddec4b 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -141,6 +141,8 @@ public:
          }
          /** set resizing global flag **/
          resizing = true;
+         /** must be visible before looking for accesses that don't know of it **/
+         std::atomic_thread_fence( std::memory_order_seq_cst );
          /** see if everybody is done with the current buffer **/
          if( allclear( thread_access, &checking_size ) )
          {
-- 
2.43.0

