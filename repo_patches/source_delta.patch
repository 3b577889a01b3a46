From a1577f7fc4bba446c8a7aff60ba6325f86c3c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 01/48] fix: a hot update does not deadlock with a stop

---
 src/include/fn_load.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 8147776..e255276 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -323,7 +323,12 @@ namespace FNLog
         }
 
 
-        Logger::StateLockGuard state_guard(logger.state_lock_);
+        //a stop holds the lock while it waits for this thread: try again at the next check.
+        std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
+        if (!state_guard.owns_lock())
+        {
+            return E_LOGGER_IN_USE;
+        }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
         {
             return E_LOGGER_NOT_RUNNING;
-- 
2.43.0


From 84fed9fdcd2b7a8dc80445240fd5a6afc24b4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 02/48] fix: a UDP device opens at once after a restart instead
 of losing records for the retry interval

---
 src/include/fn_core.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 7e27e9d..3201a83 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -203,6 +203,7 @@ namespace FNLog
             {
                 writer.close();
             }
+            writer.open_ts_ = 0; //the retry interval is for failures, not for a restart.
         }
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         return 0;
-- 
2.43.0


From 592940121c360c21ad5c6f5d46b31f53dbdf9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 03/48] fix: a start that times out does not hang in stopping
 the channel

---
 src/include/fn_core.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 3201a83..b96205b 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -89,6 +89,11 @@ namespace FNLog
             {
                 if (thd.joinable())
                 {
+                    //not started yet (start timeout): it runs once the left over logs are out.
+                    while (channel.channel_state_ == CHANNEL_STATE_NULL)
+                    {
+                        std::this_thread::sleep_for(std::chrono::milliseconds(10));
+                    }
                     if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
                     {
                         channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
-- 
2.43.0


From 9f349d8b8cd812c77b75e7bf8b738ee9a9d1cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 04/48] fix: a stop outputs every log whose call has returned,
 and calls that meet it leave nothing stale for the next start

---
 src/include/fn_channel.h |  7 ++++---
 src/include/fn_core.h    | 13 +++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index c49c8ab..030b9c7 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -261,7 +261,7 @@ namespace FNLog
             }
             
         } while (channel.channel_type_ == CHANNEL_ASYNC 
-            && (channel.channel_state_ == CHANNEL_STATE_RUNNING || ring_buffer.write_idx_ != ring_buffer.read_idx_));
+            && (channel.channel_state_ == CHANNEL_STATE_RUNNING || ring_buffer.hold_idx_ != ring_buffer.read_idx_));
 
         if (channel.channel_type_ == CHANNEL_ASYNC)
         {
@@ -486,7 +486,8 @@ namespace FNLog
         }
         Channel& channel = logger.shm_->channels_[channel_id];
         RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
-        if (channel.channel_state_ != CHANNEL_STATE_RUNNING)
+        //a stop waits for the logs that have a place: they must be pushed.
+        if (channel.channel_state_ != CHANNEL_STATE_RUNNING && channel.channel_state_ != CHANNEL_STATE_WAITING_FINISH)
         {
             return E_LOGGER_NOT_RUNNING;
         }
@@ -515,7 +516,7 @@ namespace FNLog
             {
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PUSH, 1);
             }
-        } while (channel.channel_state_ == CHANNEL_STATE_RUNNING);
+        } while (channel.channel_state_ == CHANNEL_STATE_RUNNING || channel.channel_state_ == CHANNEL_STATE_WAITING_FINISH);
 
         if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
         {
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index b96205b..a226d9e 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -34,6 +34,13 @@ namespace FNLog
             static_assert(LogData::LOG_SIZE > Device::MAX_PATH_SYS_LEN * 2 + 100, "");
             Channel& channel = logger.shm_->channels_[channel_id];
             std::thread& thd = logger.async_threads[channel_id];
+            //a log call that met the last stop can have taken a place that it will never push.
+            RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
+            while (ring_buffer.hold_idx_ != ring_buffer.write_idx_)
+            {
+                ring_buffer.hold_idx_ = (ring_buffer.hold_idx_ + RingBuffer::BUFFER_LEN - 1) % RingBuffer::BUFFER_LEN;
+                ring_buffer.buffer_[ring_buffer.hold_idx_].data_mark_ = 0;
+            }
             switch (channel.channel_type_)
             {
             case CHANNEL_SYNC:
@@ -163,10 +170,8 @@ namespace FNLog
                 ring_buffer.buffer_[ring_buffer.read_idx_].data_mark_ = 0;
                 ring_buffer.read_idx_ = (ring_buffer.read_idx_ + 1) % RingBuffer::BUFFER_LEN;
             }
-            ring_buffer.read_idx_ = 0;
-            ring_buffer.proc_idx_ = 0;
-            ring_buffer.write_idx_ = 0;
-            ring_buffer.hold_idx_ = 0;
+            //keep the position: a log call that meets the stop must not find an old index again.
+            ring_buffer.proc_idx_ = ring_buffer.read_idx_.load();
         }
         return 0;
     }
-- 
2.43.0


From 90851b77edfa9d6eaeec98f726c68ceb53ac9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 05/48] fix: a synchronous channel does not flush a file that
 another thread is rolling

---
 src/include/fn_channel.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 030b9c7..3720d16 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -173,6 +173,7 @@ namespace FNLog
                 {
                     //break;
                     flush_count = 0;
+                    Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                     for (int i = 0; i < channel.device_size_; i++)
                     {
                         if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
@@ -191,6 +192,8 @@ namespace FNLog
 
             if (flush_count != 0)
             {
+                //a sync channel flushes while other threads can be rolling the file.
+                Logger::ReadGuard rg(logger.read_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
                 for (int i = 0; i < channel.device_size_; i++)
                 {
                     if (channel.devices_[i].out_type_ == DEVICE_OUT_FILE)
-- 
2.43.0


From 2ae8f92a86c73b55692c05d96e534dfcb66927c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:40 +0000
Subject: [PATCH 06/48] fix: a complete log behind an unfinished one is
 recovered unchanged from shared memory

---
 src/include/fn_load.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index e255276..bfce743 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -106,7 +106,12 @@ namespace FNLog
             while (shm->ring_buffers_[i].write_idx_.load() != shm->ring_buffers_[i].hold_idx_.load())
             {
                 auto& log = shm->ring_buffers_[i].buffer_[shm->ring_buffers_[i].write_idx_];
-                log.data_mark_ = 2;
+                if (log.data_mark_ == 2)
+                {
+                    //complete, it only waited for an earlier one.
+                    shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
+                    continue;
+                }
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
                 log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
@@ -115,6 +120,7 @@ namespace FNLog
                 log.content_len_ += core_desc.length();
                 log.content_[log.content_len_++] = '\n';
                 log.content_[log.content_len_] = '\0';
+                log.data_mark_ = 2;
 
                 shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
             }
-- 
2.43.0


From eccc2d2d23db45a9910c5f01b705cc69b320ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 07/48] fix: a synchronous channel outputs what it recovers
 from shared memory at start

---
 src/include/fn_core.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index a226d9e..d35f1d2 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -45,6 +45,10 @@ namespace FNLog
             {
             case CHANNEL_SYNC:
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
+                if (ring_buffer.read_idx_ != ring_buffer.write_idx_)
+                {
+                    EnterProcChannel(logger, channel_id); //left over logs of the shared memory.
+                }
                 break;
             case CHANNEL_ASYNC:
             {
-- 
2.43.0


From e8daf8e59c7605cd2524211d2dfe4a307b43def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 08/48] fix: a hot update that finds the state lock busy is
 retried at once, not an interval later

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index bfce743..ce8edaa 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -329,10 +329,11 @@ namespace FNLog
         }
 
 
-        //a stop holds the lock while it waits for this thread: try again at the next check.
+        //a stop holds the lock while it waits for this thread: never wait for it, try again soon.
         std::unique_lock<Logger::StateLock> state_guard(logger.state_lock_, std::try_to_lock);
         if (!state_guard.owns_lock())
         {
+            dst_chl.last_hot_check_ = 0;
             return E_LOGGER_IN_USE;
         }
         if (logger.logger_state_ != LOGGER_STATE_RUNNING)
-- 
2.43.0


From 5fe0b08d7d2a8f8d4d41544ee61f189ed49e7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:20 +0000
Subject: [PATCH 09/48] fix: counters do not read a record whose place was
 already given back

---
 src/include/fn_channel.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 3720d16..6e1b60d 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -122,9 +122,12 @@ namespace FNLog
                 }
                 auto& cur_log = ring_buffer.buffer_[old_idx];
                 DispatchLog(logger, channel, cur_log);
+                //the place can have a new owner as soon as it is marked free.
+                const int proc_len = cur_log.content_len_;
+                const long long proc_timestamp = cur_log.timestamp_;
                 cur_log.data_mark_ = 0;
                 AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED, 1);
-                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, cur_log.content_len_);
+                AtomicIncChannelLog(channel, CHANNEL_LOG_PROCESSED_BYTES, proc_len);
                 flush_count ++;
                 empty_tick = false;
                 int write_id = ring_buffer.write_idx_.load(std::memory_order_acquire);
@@ -143,10 +146,10 @@ namespace FNLog
                     AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_PROC_QUE_SIZE, proc_que_size);
                 }
 
-                if (cur_log.timestamp_ > 0)
+                if (proc_timestamp > 0)
                 {
                     long long now = (long long)time(NULL);
-                    long long diff = now - 1 - cur_log.timestamp_;
+                    long long diff = now - 1 - proc_timestamp;
                     if (diff > AtomicLoadChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S) )
                     {
                         AtomicStoreChannelLog(channel, CHANNEL_LOG_MAX_DELAY_TIME_S, diff);
-- 
2.43.0


From 32b0037b5d180fd799105cf00b25eaa7a183766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 10/48] fix: a configuration text without channels is an error
 that changes nothing

---
 src/include/fn_load.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index ce8edaa..156d0dd 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -200,6 +200,11 @@ namespace FNLog
             printf("%s\n", os.str().c_str());
             return ret;
         }
+        if (ls->channel_size_ <= 0)
+        {
+            printf("InitFromYMAL:<%s> no channel. \n", path.c_str());
+            return E_INVALID_CHANNEL_SIZE;
+        }
 
         Logger::StateLockGuard state_guard(logger.state_lock_);
         if (logger.logger_state_ != LOGGER_STATE_UNINIT)
@@ -327,6 +332,10 @@ namespace FNLog
         {
             return ret;
         }
+        if (ls->channel_size_ <= channel_id)
+        {
+            return E_INVALID_CHANNEL_SIZE; //an empty text has no channel.
+        }
 
 
         //a stop holds the lock while it waits for this thread: never wait for it, try again soon.
-- 
2.43.0


From 1d2ccebbc6269e45ba45b924d57051494d8b2875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 11/48] fix: rendering the smallest long long does not overflow

---
 src/include/fn_fmt.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index fe8e408..b66b1c9 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -82,8 +82,7 @@ namespace FNLog
         if (number < 0)
         {
             *dst = '-';
-            number = -number;
-            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, (unsigned long long) number);
+            return 1 + write_dec_unsafe<WIDE - 1>(dst + 1, 0ULL - (unsigned long long) number);
         }
         return write_dec_unsafe<WIDE>(dst, (unsigned long long) number);
     }
-- 
2.43.0


From e7885918568ae00a6b23cf913792a77f68158142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 12/48] fix: hexadecimal and binary rendering of zero does not
 count the leading zeros of zero

---
 src/include/fn_fmt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index b66b1c9..cc6c715 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -159,7 +159,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = number == 0 ? 1 : sizeof(number) * 8 - __builtin_clzll(number);
 #else
         unsigned long win_index = 0;
         if (_BitScanReverse(&win_index, (unsigned long)(number >> 32)))
@@ -224,7 +224,7 @@ namespace FNLog
 
         int real_wide = 0;
 #ifndef WIN32
-        real_wide = sizeof(number) * 8 - __builtin_clzll(number);
+        real_wide = number == 0 ? 1 : sizeof(number) * 8 - __builtin_clzll(number);
 #else
         unsigned long win_index = 0;
         _BitScanReverse64(&win_index, number);
-- 
2.43.0


From 0f9a39df9b44f6d61ef4c7904f2fabd95b1efe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:21 +0000
Subject: [PATCH 13/48] fix: tiny negative numbers and negative infinity keep
 their sign

---
 src/include/fn_fmt.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index cc6c715..9e1b300 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -255,6 +255,11 @@ namespace FNLog
             *dst = '0';
             return 1;
         case FP_INFINITE:
+            if (std::signbit(number))
+            {
+                memcpy(dst, "-inf", 4);
+                return 4;
+            }
             memcpy(dst, "inf", 3);
             return 3;
         case FP_NAN:
@@ -272,7 +277,7 @@ namespace FNLog
         {
             if (fabst < 0.0001 && fabst > 0.0000001)
             {
-                snprintf(dst, 30, "%.08lf", fabst);
+                snprintf(dst, 30, "%.08lf", number);
             }
             else
             {
-- 
2.43.0


From ac374d7cbb35fe1882f4d37eba7ca4e42ccc9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 14/48] fix: time stamps are right on days that are not 24
 hours long and on the first day of the epoch

---
 src/include/fn_fmt.h | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/include/fn_fmt.h b/src/include/fn_fmt.h
index 9e1b300..3ff7cbb 100644
--- a/src/include/fn_fmt.h
+++ b/src/include/fn_fmt.h
@@ -325,16 +325,11 @@ namespace FNLog
         static thread_local tm cache_date = { 0 };
         static thread_local long long cache_timestamp = 0;
         static const char date_fmt[] = "[20190412 13:05:35.417]";
-        long long day_second = timestamp - cache_timestamp;
-        if (day_second < 0 || day_second >= 24*60*60)
+        if (timestamp != cache_timestamp || cache_date.tm_mday == 0)
         {
+            //a local day is not always 24 hours, so the whole broken down time is cached, not the begin of the day.  
             cache_date = FileHandler::time_to_tm((time_t)timestamp);
-            struct tm daytm = cache_date;
-            daytm.tm_hour = 0;
-            daytm.tm_min = 0;
-            daytm.tm_sec = 0;
-            cache_timestamp = mktime(&daytm);
-            day_second = timestamp - cache_timestamp;
+            cache_timestamp = timestamp;
         }
         int write_bytes = 0;
 
@@ -346,13 +341,11 @@ namespace FNLog
 
         *(dst + write_bytes++) = ' ';
 
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second/3600);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_hour);
         *(dst + write_bytes++) = ':';
-        day_second %= 3600;
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second / 60);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_min);
         *(dst + write_bytes++) = ':';
-        day_second %= 60;
-        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)day_second);
+        write_bytes += write_dec_unsafe<2>(dst + write_bytes, (unsigned long long)cache_date.tm_sec);
 
         *(dst + write_bytes++) = '.';
         if (precise >= 1000)
-- 
2.43.0


From 9b3fc316b4282d61a747ad3a211397adec25157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:05 +0000
Subject: [PATCH 15/48] fix: the hook is called only for records of a channel
 with an enabled virtual device

---
 src/include/fn_stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_stream.h b/src/include/fn_stream.h
index d361d99..3d42785 100644
--- a/src/include/fn_stream.h
+++ b/src/include/fn_stream.h
@@ -183,7 +183,8 @@ namespace FNLog
                     if (channel.virtual_device_id_ >= 0)
                     {
                         Device& device = channel.devices_[channel.virtual_device_id_];
-                        if (log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
+                        if (device.out_type_ == DEVICE_OUT_VIRTUAL && AtomicLoadC(device, DEVICE_CFG_ABLE)
+                            && log_data_->priority_ >= device.config_fields_[DEVICE_CFG_PRIORITY])
                         {
                             //more block check in the proc 
                             EnterProcOutVirtualDevice(*logger_, log_data_->channel_id_, channel.virtual_device_id_, *log_data_);
-- 
2.43.0


From af8e1882930102bf18923269fce0037ba12b23d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 16/48] fix: a received datagram is output with its own bytes
 only

---
 src/include/fn_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 6e1b60d..a6dfa9f 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -249,8 +249,9 @@ namespace FNLog
                     if (ring_buffer.udp_buffer_.content_len_ == LogData::LOG_SIZE)
                     {
                         ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 2] = '\n';
-                        ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_ - 1] = '\0';
+                        ring_buffer.udp_buffer_.content_len_--; //like any log: the last byte is not content.
                     }
+                    ring_buffer.udp_buffer_.content_[ring_buffer.udp_buffer_.content_len_] = '\0'; //may be used like c-string
                     if (ring_buffer.udp_buffer_.content_len_ == 0)
                     {
                         break;
-- 
2.43.0


From a5e25c14c99961c20961e9a4af326f533a93b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:39 +0000
Subject: [PATCH 17/48] fix: a UDP socket that cannot be made non-blocking is
 not used

---
 src/include/fn_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 0d896d5..a3d0726 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -470,6 +470,7 @@ public:
         int ret = ioctlsocket(handler_, FIONBIO, &argp);
         if (ret != NO_ERROR)
         {
+            close(); //a blocking socket would hang the channel
             return -2;
         }
 #else
@@ -478,6 +479,7 @@ public:
         int ret = fcntl(handler_, F_SETFL, newf);
         if (ret == -1)
         {
+            close(); //a blocking socket would hang the channel
             return -2;
         }
 #endif
-- 
2.43.0


From 513892f6b4a522c73ba4d636e586e368e398ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 18/48] fix: threads that log on a synchronous channel do not
 share its UDP input without a lock

---
 src/include/fn_channel.h | 2 ++
 src/include/fn_data.h    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index a6dfa9f..6e198d0 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -213,6 +213,8 @@ namespace FNLog
                 {
                     continue;
                 }
+                //every log thread of a sync channel comes here; the socket and the buffer are shared.
+                Logger::ReadGuard ug(logger.udp_locks_[channel_id], channel.channel_type_ == CHANNEL_ASYNC);
 
                 UDPHandler& udp = logger.udp_handles_[channel_id * Channel::MAX_DEVICE_SIZE + i];
                 if (!device.config_fields_[DEVICE_CFG_ABLE])
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index bc76703..ef0b9b7 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -426,6 +426,7 @@ namespace FNLog
         SHMLogger* shm_;
 
         ReadLocks read_locks_;
+        ReadLocks udp_locks_; //the udp in devices of a sync channel; lock before read_locks_
         AsyncThreads async_threads;
         ScreenLock screen_lock_;
         FileHandles file_handles_;
-- 
2.43.0


From d452d569ccf34415a500cc27005d170b3a7e92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 19/48] fix: a file continued by a new run does not grow over
 its size limit

---
 src/include/fn_out_file_device.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index 64e7e8f..d3a5502 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -297,6 +297,15 @@ namespace FNLog
 
         struct stat file_stat;
         long writed_byte = writer.open(path.c_str(), "ab", file_stat);
+        if (writer.is_open() && writed_byte > 0 && !limit_out
+            && AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE) > 0 && AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK) > 0
+            && writed_byte + log.content_len_ > AtomicLoadC(device, DEVICE_CFG_FILE_LIMIT_SIZE))
+        {
+            //the file left by an earlier run has no room for this log.
+            writer.close();
+            FileHandler::rollback(path, 1, (int)AtomicLoadC(device, DEVICE_CFG_FILE_ROLLBACK));
+            writed_byte = writer.open(path.c_str(), "ab", file_stat);
+        }
         if (!writer.is_open())
         {
             AtomicStoreDeviceLog(channel, device.device_id_, DEVICE_LOG_LAST_TRY_CREATE_ERROR, 2);
-- 
2.43.0


From 820dd40ada3eb16b4fb0ba38a86a9390ae7c5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 20/48] fix: daily and hourly rolling follow the local date on
 days the clock changes

---
 src/include/fn_out_file_device.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index d3a5502..d75c2a3 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -189,6 +189,14 @@ namespace FNLog
     }
 
 
+    //same local date, and same hour if by_hour 
+    inline bool IsSameDay(long long first, long long second, bool by_hour)
+    {
+        struct tm a = FileHandler::time_to_tm((time_t)first);
+        struct tm b = FileHandler::time_to_tm((time_t)second);
+        return a.tm_year == b.tm_year && a.tm_yday == b.tm_yday && (!by_hour || a.tm_hour == b.tm_hour);
+    }
+
     inline void OpenFileDevice(Logger & logger, Channel & channel, Device & device, FileHandler & writer, LogData & log)
     {
         (void)logger;
@@ -212,8 +220,10 @@ namespace FNLog
             //daily rolling
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLDAILY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 24 * 3600)
+                //a local day can have 23, 24 or 25 hours; compare the dates unless the log is surely of the same day.
+                if ((log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP)
+                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_DAY) + 20 * 3600)
+                    && !IsSameDay(log.timestamp_, AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP), false))
                 {
                     close_file = true;
                 }
@@ -223,8 +233,10 @@ namespace FNLog
             //hourly rolling 
             if (AtomicLoadC(device, DEVICE_CFG_FILE_ROLLHOURLY))
             {
-                if (log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR)
-                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR) + 3600)
+                //the clock can change by half an hour.
+                if ((log.timestamp_ < AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP)
+                    || log.timestamp_ >= AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_HOUR) + 1800)
+                    && !IsSameDay(log.timestamp_, AtomicLoadDeviceLog(channel, device.device_id_, DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP), true))
                 {
                     close_file = true;
                 }
-- 
2.43.0


From 54700cc9a16fa7f6147b0974519a513a8e896fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 21/48] fix: default file names of different devices differ

---
 src/include/fn_out_file_device.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_out_file_device.h b/src/include/fn_out_file_device.h
index d75c2a3..5f0bdd3 100644
--- a/src/include/fn_out_file_device.h
+++ b/src/include/fn_out_file_device.h
@@ -177,6 +177,10 @@ namespace FNLog
         {
             name = "$PNAME_$YEAR$MON$DAY_$PID.";
             name += std::to_string(channel_id);
+            if (device_id >= 10)
+            {
+                name += "_"; //or channel 1 device 10 is the same as channel 11 device 0
+            }
             name += std::to_string(device_id);
         }
         name += ".log";
-- 
2.43.0


From 7de04082ebead2334d85d9eaf87ddaff56fdc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 22/48] fix: a failing rename during a rotation does not
 overwrite a backup

---
 src/include/fn_file.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index a3d0726..d995f84 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -375,7 +375,8 @@ namespace FNLog
         }
         if (depth > max_depth)
         {
-            return remove_file(path);
+            remove_file(path);
+            return true; //the oldest one is replaced in any case
         }
         std::string next_path = path;
         size_t pos = path.find_last_not_of("0123456789");
@@ -385,10 +386,11 @@ namespace FNLog
         }
         next_path += ".";
         next_path += std::to_string(depth);
-        rollback(next_path, depth + 1, max_depth);
-        int ret = ::rename(path.c_str(), next_path.c_str());
-        (void)ret;
-        return true;
+        if (!rollback(next_path, depth + 1, max_depth))
+        {
+            return false; //a backup that could not be moved is not overwritten
+        }
+        return ::rename(path.c_str(), next_path.c_str()) == 0;
     }
 
     inline int short_path(const char* path, int len)
-- 
2.43.0


From 89cd29a5a84a4e6b440dbd7f98206efc6caa42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 23/48] fix: a datagram that could not be sent is not counted
 as written

---
 src/include/fn_out_udp_device.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_out_udp_device.h b/src/include/fn_out_udp_device.h
index 56eb98a..0a73866 100644
--- a/src/include/fn_out_udp_device.h
+++ b/src/include/fn_out_udp_device.h
@@ -38,6 +38,7 @@ namespace FNLog
         if (ret <= 0)
         {
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_LOSE_LINE, 1);
+            return;
         }
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
         AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
-- 
2.43.0


From db2359e93ffa2e7277d37debf041a5dc201dd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:01 +0000
Subject: [PATCH 24/48] fix: the hook of the virtual device sees exactly the
 text that is output

---
 src/include/fn_out_virtual_device.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 0bc34ef..579597a 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -60,8 +60,8 @@ namespace FNLog
                 return;
             }
 
-            int content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 1);
-            log.content_[content_len_] = '\0'; //virtual device hook maybe direct used content like c-string 
+            log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2); //the same text as the output (see PushChannel)
+            log.content_[log.content_len_] = '\0'; //virtual device hook maybe direct used content like c-string 
 
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_LINE, 1);
             AtomicIncDeviceLog(channel, device_id, DEVICE_LOG_TOTAL_WRITE_BYTE, log.content_len_);
-- 
2.43.0


From 94b33cbab7feda6c007bf3f7a3a03b4f5e665b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 25/48] fix: a configuration text with a byte order mark or a
 NUL byte does not hang the parser

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 03523cd..8c9685c 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1411,7 +1411,7 @@ namespace FNLog
             }
         }
         ls.first_ = first;
-        ls.end_ = first + text.length();
+        ls.end_ = first + strlen(first); //the lexer stops at the first '\0' 
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
         ls.hot_update_ = false;
-- 
2.43.0


From fad156abb0ab49a83dc58983e050be39793be8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 26/48] fix: a configuration without shm_key does not take an
 indeterminate one

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 8c9685c..8c455eb 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1414,6 +1414,7 @@ namespace FNLog
         ls.end_ = first + strlen(first); //the lexer stops at the first '\0' 
         memset(&ls.channels_, 0, sizeof(ls.channels_));
         ls.channel_size_ = 0;
+        ls.shm_key_ = 0;
         ls.hot_update_ = false;
         ls.current_ = ls.first_;
         ls.line_no_ = 1; 
-- 
2.43.0


From a90ffe0526c7559a91f52f2349c17554dcb0eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 27/48] fix: a define whose value equals its name does not hang
 the parser

---
 src/include/fn_parse.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 8c455eb..cc32833 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -805,6 +805,7 @@ namespace FNLog
             if (bound_ok)
             {
                 memcpy(&text[text_offset], val.c_str(), val.length());
+                text_offset += val.length();
             }
         };
         return 0;
-- 
2.43.0


From fe6937bad7d530df7aec5c95bf8c5057dc4a2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 28/48] fix: numbers outside the bitmap in a category/identify
 list neither hang nor select other bits

---
 src/include/fn_parse.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index cc32833..eb38419 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -697,6 +697,17 @@ namespace FNLog
         return;
     }
 
+    //offsets 64 and above are outside the bitmap 
+    inline int ParseBitOffset(const char* begin)
+    {
+        return (int)(std::min)(strtoull(begin, NULL, 10), 64ULL);
+    }
+
+    inline unsigned long long BitOfOffset(int offset)
+    {
+        return offset < 64 ? 1ULL << offset : 0ULL;
+    }
+
     inline unsigned long long ParseBitArray(const char* begin, const char* end)
     {
         unsigned long long bitmap = 0;
@@ -716,7 +727,7 @@ namespace FNLog
                 break;
             }
 
-            int bit_offset_first = atoi(offset);
+            int bit_offset_first = ParseBitOffset(offset);
             while (offset < end && (IsNumber(*offset) || IsBlank(*offset)))
             {
                 offset++;
@@ -724,7 +735,7 @@ namespace FNLog
 
             if (offset == end || *offset != '-') //
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= BitOfOffset(bit_offset_first);
                 continue;
             }
 
@@ -735,14 +746,14 @@ namespace FNLog
 
             if (offset == end || !IsNumber(*offset))
             {
-                bitmap |= (1ULL << bit_offset_first);
+                bitmap |= BitOfOffset(bit_offset_first);
                 continue;
             }
 
-            int bit_offset_last = atoi(offset);
+            int bit_offset_last = ParseBitOffset(offset);
             for (int i = (std::min)(bit_offset_first, bit_offset_last); i <= (std::max)(bit_offset_first, bit_offset_last); i++)
             {
-                bitmap |= (1ULL << i);
+                bitmap |= BitOfOffset(i);
             }
         }
         return bitmap;
-- 
2.43.0


From 26b1512f07fc2d1e9043bccc50774b69843c2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 29/48] fix: a huge limit_size does not overflow into a small
 or negative one

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index eb38419..6497bc2 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1233,7 +1233,7 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_LIMIT_SIZE:
-                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = atoll(ls.line_.val_begin_) * 1000*1000;
+                device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = (std::max)((std::min)(atoll(ls.line_.val_begin_), 1000000000000LL), -1LL) * 1000*1000;
                 break;
             case RK_ROLLBACK:
                 device.config_fields_[DEVICE_CFG_FILE_ROLLBACK] = atoll(ls.line_.val_begin_);
-- 
2.43.0


From de6504c0be318b555c5f0d3009dbb2880d0fbbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 30/48] fix: a channel with 'sync: SYNC' is a synchronous one,
 as documented

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 6497bc2..71d2158 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -540,7 +540,7 @@ namespace FNLog
     }
     inline ChannelType ParseChannelType(const char* begin, const char* end)
     {
-        if (end <= begin || *begin != 's')
+        if (end <= begin || (*begin != 's' && *begin != 'S'))
         {
             return CHANNEL_ASYNC;
         }
-- 
2.43.0


From a6f5ef84a1a94ec822ec172a87176608061a619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 31/48] fix: the category/identify range of a channel is not
 cut to 32 bits

---
 src/include/fn_parse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 71d2158..2224dd7 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1336,10 +1336,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_PRIORITY] = ParsePriority(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY] = atoll(ls.line_.val_begin_);
                 break;            
             case RK_CATEGORY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_CATEGORY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
@@ -1354,10 +1354,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_EXTEND:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoi(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_EXTEND] = atoll(ls.line_.val_begin_);
                 break;
             case RK_IDENTIFY_WLIST:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
-- 
2.43.0


From 4b61a4194e69c55669db9df6ef72e988c57c7dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 32/48] fix: a category/identify mask takes all 64 bits

---
 src/include/fn_parse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 2224dd7..f973b81 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1209,10 +1209,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 device.config_fields_[DEVICE_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1227,10 +1227,10 @@ namespace FNLog
                 device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                device.config_fields_[DEVICE_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_LIMIT_SIZE:
                 device.config_fields_[DEVICE_CFG_FILE_LIMIT_SIZE] = (std::max)((std::min)(atoll(ls.line_.val_begin_), 1000000000000LL), -1LL) * 1000*1000;
@@ -1348,10 +1348,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_CATEGORY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_CATEGORY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_CATEGORY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY:
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY] = atoll(ls.line_.val_begin_);
@@ -1366,10 +1366,10 @@ namespace FNLog
                 channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~ParseBitArray(ls.line_.val_begin_, ls.line_.val_end_);
                 break;
             case RK_IDENTIFY_WMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
             case RK_IDENTIFY_BMASK:
-                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~atoll(ls.line_.val_begin_);
+                channel.config_fields_[CHANNEL_CFG_IDENTIFY_MASK] = ~strtoull(ls.line_.val_begin_, NULL, 10);
                 break;
 
             case RK_DEVICE:
-- 
2.43.0


From 68bb2b581429b60233c70e8b439fe28781e57a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:04 +0000
Subject: [PATCH 33/48] fix: blanks before the value of a variable do not
 belong to it

---
 src/include/fn_parse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index f973b81..ab02d05 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -904,7 +904,7 @@ namespace FNLog
             }
 
             sep++;
-            while (sep < dot &&  IsBlank(line.at(offset)))
+            while (sep < dot &&  IsBlank(line.at(sep)))
             {
                 sep++;
             }
-- 
2.43.0


From 0128cf4f46e990c4b7f3dd855da356d52adab792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:17 +0000
Subject: [PATCH 34/48] fix: udp_addr means the same before and after the
 'disable' and 'in_type' of its device

---
 src/include/fn_parse.h | 71 ++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index ab02d05..924081f 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1147,6 +1147,11 @@ namespace FNLog
 
     inline int ParseDevice(LexState& ls, Device& device, int indent)
     {
+        //the address is checked at the end of the device: 'disable' and 'in_type' can follow it 
+        const char* addr_begin = nullptr;
+        const char* addr_end = nullptr;
+        const char* addr_current = nullptr;
+        int addr_line_no = 0;
         do
         {
             const char* current = ls.current_;
@@ -1162,7 +1167,7 @@ namespace FNLog
                 if (ls.current_ >= ls.end_)
                 {
                     //eof 
-                    return ret;
+                    break;
                 }
                 //blank line 
                 continue;
@@ -1172,7 +1177,7 @@ namespace FNLog
             {
                 ls.current_ = current;
                 ls.line_no_--; //upper re lex
-                return 0;
+                break;
             }
 
             switch (ls.line_.key_)
@@ -1264,40 +1269,44 @@ namespace FNLog
                 }
                 break;
             case RK_UDP_ADDR:
-                if (true) 
-                {
-                    long long ip = 0;
-                    long long port = 0;
-                    bool parse_dn = device.config_fields_[DEVICE_CFG_ABLE] != 0;
-                    ParseAddres(ls.line_.val_begin_, ls.line_.val_end_, parse_dn, ip, port);
-                    device.config_fields_[DEVICE_CFG_UDP_IP] = ip;
-                    device.config_fields_[DEVICE_CFG_UDP_PORT] = port;
-                }
-                if (device.config_fields_[DEVICE_CFG_ABLE])
-                {
-                    if (device.in_type_ == DEVICE_IN_NULL && device.config_fields_[DEVICE_CFG_UDP_IP] == 0)
-                    {
-                        //logic error:
-                        ls.current_ = current;
-                        ls.line_no_--;
-                        return PEC_ILLEGAL_ADDR_IP;
-                    }
-
-                    if (device.config_fields_[DEVICE_CFG_UDP_PORT] == 0)
-                    {
-                        //logic error:
-                        ls.current_ = current;
-                        ls.line_no_--;
-                        return PEC_ILLEGAL_ADDR_PORT;
-                    }
-                }
-
-
+                addr_begin = ls.line_.val_begin_;
+                addr_end = ls.line_.val_end_;
+                addr_current = current;
+                addr_line_no = ls.line_no_ - 1;
                 break;
             default:
                 return PEC_UNDEFINED_DEVICE_KEY;
             }
         } while (ls.current_ < ls.end_);
+
+        if (addr_begin == nullptr)
+        {
+            return 0;
+        }
+        long long ip = 0;
+        long long port = 0;
+        bool parse_dn = device.config_fields_[DEVICE_CFG_ABLE] != 0;
+        ParseAddres(addr_begin, addr_end, parse_dn, ip, port);
+        device.config_fields_[DEVICE_CFG_UDP_IP] = ip;
+        device.config_fields_[DEVICE_CFG_UDP_PORT] = port;
+        if (device.config_fields_[DEVICE_CFG_ABLE])
+        {
+            if (device.in_type_ == DEVICE_IN_NULL && device.config_fields_[DEVICE_CFG_UDP_IP] == 0)
+            {
+                //logic error:
+                ls.current_ = addr_current;
+                ls.line_no_ = addr_line_no;
+                return PEC_ILLEGAL_ADDR_IP;
+            }
+
+            if (device.config_fields_[DEVICE_CFG_UDP_PORT] == 0)
+            {
+                //logic error:
+                ls.current_ = addr_current;
+                ls.line_no_ = addr_line_no;
+                return PEC_ILLEGAL_ADDR_PORT;
+            }
+        }
         return 0;
     }
     inline int ParseChannel(LexState& ls, Channel& channel, int indent)
-- 
2.43.0


From 60d580f354c9c99bedfcc725831aa18c4fd5208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 35/48] fix: channel and device numbers beyond 32 bits are not
 taken for small ones

---
 src/include/fn_parse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/fn_parse.h b/src/include/fn_parse.h
index 924081f..a610b72 100644
--- a/src/include/fn_parse.h
+++ b/src/include/fn_parse.h
@@ -1383,7 +1383,7 @@ namespace FNLog
 
             case RK_DEVICE:
                 {
-                    int device_id = atoi(ls.line_.val_begin_);
+                    long long device_id = atoll(ls.line_.val_begin_);
                     if (channel.device_size_ >= Channel::MAX_DEVICE_SIZE)
                     {
                         //logic error:
@@ -1400,7 +1400,7 @@ namespace FNLog
                     }
                     Device& device = channel.devices_[channel.device_size_++];
                     memset(&device, 0, sizeof(device));
-                    device.device_id_ = device_id;
+                    device.device_id_ = (int)device_id;
                     ret = ParseDevice(ls, device, ls.line_.blank_);
                     if (device.out_type_ == DEVICE_OUT_VIRTUAL)
                     {
@@ -1497,7 +1497,7 @@ namespace FNLog
                 break;
             case RK_CHANNEL:
                 {
-                    int channel_id = atoi(ls.line_.val_begin_);
+                    long long channel_id = atoll(ls.line_.val_begin_);
                     if (ls.channel_size_ >= Logger::MAX_CHANNEL_SIZE)
                     {
                         //logic error:
@@ -1514,7 +1514,7 @@ namespace FNLog
                     }
                     Channel& channel = ls.channels_[ls.channel_size_++];
                     memset(&channel, 0, sizeof(channel));
-                    channel.channel_id_ = channel_id;
+                    channel.channel_id_ = (int)channel_id;
                     ret = ParseChannel(ls, channel, ls.line_.blank_);
                     if (ret != 0)
                     {
-- 
2.43.0


From b2581e27ae4bec10ccd5a0f5fb5081662b7a1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:44 +0000
Subject: [PATCH 36/48] fix: stop, query and configure calls on a logger that
 was never configured do not crash

---
 src/include/fn_core.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index d35f1d2..8f3844d 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -183,6 +183,11 @@ namespace FNLog
 
     inline int StopLogger(Logger& logger)
     {
+        if (logger.shm_ == NULL)
+        {
+            printf("StopLogger error. logger not init %p.\n", logger.shm_);
+            return E_LOGGER_NOT_INIT;
+        }
         if (logger.shm_->channel_size_ > Logger::MAX_CHANNEL_SIZE || logger.shm_->channel_size_ <= 0)
         {
             printf("StopLogger error. channel size:<%d> invalid.\n", logger.shm_->channel_size_);
@@ -278,7 +283,7 @@ namespace FNLog
 
     inline long long GetChannelLog(Logger& logger, int channel_id, ChannelLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -292,7 +297,7 @@ namespace FNLog
 
     inline void SetChannelConfig(Logger& logger, int channel_id, ChannelConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -306,7 +311,7 @@ namespace FNLog
 
     inline long long GetDeviceLog(Logger& logger, int channel_id, int device_id, DeviceLogEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -324,7 +329,7 @@ namespace FNLog
 
     inline void SetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field, long long val)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return;
         }
@@ -342,7 +347,7 @@ namespace FNLog
 
     inline long long GetDeviceConfig(Logger& logger, int channel_id, int device_id, DeviceConfigEnum field)
     {
-        if (logger.shm_->channel_size_ <= channel_id || channel_id < 0)
+        if (logger.shm_ == NULL || logger.shm_->channel_size_ <= channel_id || channel_id < 0)
         {
             return 0;
         }
@@ -360,7 +365,7 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
-        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
             channel.config_fields_[cce] = v;
@@ -369,7 +374,7 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
-        for (int i = 0; i < logger.shm_->channel_size_; i++)
+        for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
             for (int j = 0; j < channel.device_size_; j++)
-- 
2.43.0


From 6dd7d8ed015f9fea8b322e5b6c4970ee0ddae5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 37/48] fix: batch set of a field that is none does not write
 beyond the settings

---
 src/include/fn_core.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 8f3844d..1857de6 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -365,6 +365,10 @@ namespace FNLog
 
     inline void BatchSetChannelConfig(Logger& logger, ChannelConfigEnum cce, long long v)
     {
+        if (cce >= CHANNEL_CFG_MAX_ID)
+        {
+            return;
+        }
         for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
@@ -374,6 +378,10 @@ namespace FNLog
 
     inline void BatchSetDeviceConfig(Logger& logger, DeviceOutType out_type, DeviceConfigEnum dce, long long v)
     {
+        if (dce >= DEVICE_CFG_MAX_ID)
+        {
+            return;
+        }
         for (int i = 0; logger.shm_ != NULL && i < logger.shm_->channel_size_; i++)
         {
             auto& channel = logger.shm_->channels_[i];
-- 
2.43.0


From 2a34091eb0101a8a56b1cd5efd4149a3cfdf53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 38/48] fix: a restart with another shm_key does not free the
 memory of the logger as what it is not

---
 src/include/fn_load.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 156d0dd..178b802 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -226,9 +226,10 @@ namespace FNLog
         }
         logger.yaml_path_ = path;
         logger.hot_update_ = ls->hot_update_;
-        logger.shm_key_ = ls->shm_key_;
         if (logger.shm_ == NULL)
         {
+            //the memory is kept by a restart: the key must stay the one it was got with.
+            logger.shm_key_ = ls->shm_key_;
             ret = LoadSharedMemory(logger);
             if (ret != 0 || logger.shm_ == NULL)
             {
-- 
2.43.0


From 967fae8b8b754e0ec5f458188af57c7026f33cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 39/48] fix: a log call with a priority outside the scale does
 not write beyond the counters

---
 src/include/fn_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 6e198d0..96507ea 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -285,7 +285,7 @@ namespace FNLog
         (void)logger;
         (void)prefix;
         log.channel_id_ = channel_id;
-        log.priority_ = priority;
+        log.priority_ = FN_MAX(FN_MIN(priority, (int)PRIORITY_FATAL), (int)PRIORITY_TRACE); //it is the index of a counter 
         log.category_ = category;
         log.identify_ = identify;
         log.code_line_ = 0;
-- 
2.43.0


From f8dc9881aff3b7e20d999fca4641b005e3d18bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:03 +0000
Subject: [PATCH 40/48] fix: a start that fails does not leave a shared memory
 segment attached or half made

---
 src/include/fn_load.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 178b802..2f2c964 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -65,6 +65,7 @@ namespace FNLog
             if (addr == nullptr || addr == (void*)-1)
             {
                 printf("new shm. shmat error. key:<0x%llx>, idx:<%d>, errno:<%d>.\n", logger.shm_key_, idx, errno);
+                shmctl(idx, IPC_RMID, nullptr); //or the next start finds one that is not initialized. 
                 return E_SHMAT_ERROR;
             }
             shm = (SHMLogger*)addr;
@@ -88,18 +89,21 @@ namespace FNLog
             printf("shm version error. key:<0x%llx>, old id:<%d>, new id:<%d>, old size:<%d> new size:<%d>. "
                 "can use 'ipcs -m', 'ipcrm -m' to view and clear.\n",
                 logger.shm_key_, shm->shm_id_, idx, shm->shm_size_, (int)sizeof(SHMLogger));
+            shmdt(shm);
             return E_SHM_VERSION_WRONG;
         }
         for (int i = 0; i < shm->channel_size_; i++)
         {
             if (i >= SHMLogger::MAX_CHANNEL_SIZE)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
             if (shm->ring_buffers_[i].write_idx_ >= RingBuffer::BUFFER_LEN
                 || shm->ring_buffers_[i].write_idx_ < 0)
             {
+                shmdt(shm);
                 return E_SHM_VERSION_WRONG;
             }
 
@@ -129,6 +133,7 @@ namespace FNLog
             if (shm->ring_buffers_[i].read_idx_ >= RingBuffer::BUFFER_LEN
                 || shm->ring_buffers_[i].read_idx_ < 0)
             {
+                shmdt(shm);
                 return -10;
             }
             shm->ring_buffers_[i].proc_idx_ = shm->ring_buffers_[i].read_idx_.load();
-- 
2.43.0


From 7dbeccaa0ee49fbaf0e04bc5533e89c5ed27f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 41/48] fix: a start whose thread can not be created fails
 instead of throwing out of a half started logger

---
 src/include/fn_core.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 1857de6..2d44188 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -52,7 +52,14 @@ namespace FNLog
                 break;
             case CHANNEL_ASYNC:
             {
-                thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                try
+                {
+                    thd = std::thread(EnterProcChannel, std::ref(logger), channel_id);
+                }
+                catch (const std::system_error&)
+                {
+                    //no thread left: reported by the check below.
+                }
                 if (!thd.joinable())
                 {
                     printf("StartChannels %s", "start async log thread has error.\n");
-- 
2.43.0


From d36024b3413896c0881988ebcdd200b681b3e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 42/48] fix: a directory that others create at the same time is
 not a failure

---
 src/include/fn_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index d995f84..825824f 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -270,7 +270,7 @@ namespace FNLog
 #else
                 ret = (mkdir(cur.c_str(), S_IRWXU | S_IRWXG | S_IRWXO) == 0);
 #endif
-                if (!ret)
+                if (!ret && !is_dir(cur)) //it can be created by others at the same time.
                 {
                     return false;
                 }
-- 
2.43.0


From 16f6f1ff323b3cd3b9e24557cd86548a9245bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:54 +0000
Subject: [PATCH 43/48] fix: PushChannel read the record for its byte counter
 after it had given the record away

---
 src/include/fn_channel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 96507ea..3c0ae08 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -506,8 +506,9 @@ namespace FNLog
         log.content_[log.content_len_++] = '\n';
         log.content_[log.content_len_] = '\0';
 
-        log.data_mark_ = 2;
+        //the place can be output and have a new owner as soon as it is marked.
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
+        log.data_mark_ = 2;
 
         do
         {
-- 
2.43.0


From 8a672c7dd7e52aa6a534a9f4f35c3a3aa6105635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:54 +0000
Subject: [PATCH 44/48] fix: a log in progress at a crash was recovered with
 text of an older log in its place

---
 src/include/fn_channel.h | 11 +++++++----
 src/include/fn_load.h    | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 3c0ae08..4576e9b 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -470,6 +470,7 @@ namespace FNLog
                 if (ring_buffer.hold_idx_.compare_exchange_strong(old_idx, hold_idx))
                 {
                     AtomicIncChannelLog(channel, CHANNEL_LOG_HOLD, 1);
+                    ring_buffer.buffer_[old_idx].content_len_ = 0;
                     ring_buffer.buffer_[old_idx].data_mark_.store(MARK_HOLD, std::memory_order_release);
                     return old_idx;
                 }
@@ -502,9 +503,11 @@ namespace FNLog
         }
 
         LogData& log = ring_buffer.buffer_[hold_idx];
-        log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
-        log.content_[log.content_len_++] = '\n';
-        log.content_[log.content_len_] = '\0';
+        //content first: a recovery takes what is in the length.
+        int content_len = FN_MIN(log.content_len_, LogData::LOG_SIZE - 2);
+        log.content_[content_len++] = '\n';
+        log.content_[content_len] = '\0';
+        log.content_len_ = content_len;
 
         //the place can be output and have a new owner as soon as it is marked.
         AtomicIncChannelLog(channel, CHANNEL_LOG_PRIORITY + log.priority_, log.content_len_);
@@ -565,8 +568,8 @@ namespace FNLog
         trans_log.precise_ = log.precise_;
         trans_log.thread_ = log.thread_;
         trans_log.prefix_len_ = log.prefix_len_;
-        trans_log.content_len_ = log.content_len_;
         memcpy(trans_log.content_, log.content_, log.content_len_);
+        trans_log.content_len_ = log.content_len_;
         return PushChannel(logger, channel_id, hold_idx);
     }
 }
diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 2f2c964..6d339fe 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -116,14 +116,20 @@ namespace FNLog
                     shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
                     continue;
                 }
+                if (log.data_mark_ == MARK_INVALID)
+                {
+                    //its new owner had written nothing yet, the content is of an old log.
+                    log.content_len_ = 0;
+                }
                 log.priority_ = PRIORITY_FATAL;
                 std::string core_desc = "!!!core recover!!!";
-                log.content_len_ = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
-                memcpy(&log.content_[log.content_len_], core_desc.c_str(), core_desc.length());
+                int content_len = FN_MIN(log.content_len_, LogData::LOG_SIZE - (int)core_desc.length() - 2);
+                memcpy(&log.content_[content_len], core_desc.c_str(), core_desc.length());
 
-                log.content_len_ += core_desc.length();
-                log.content_[log.content_len_++] = '\n';
-                log.content_[log.content_len_] = '\0';
+                content_len += (int)core_desc.length();
+                log.content_[content_len++] = '\n';
+                log.content_[content_len] = '\0';
+                log.content_len_ = content_len;
                 log.data_mark_ = 2;
 
                 shm->ring_buffers_[i].write_idx_ = (shm->ring_buffers_[i].write_idx_ + 1) % RingBuffer::BUFFER_LEN;
-- 
2.43.0


From 66865f6946ef861222bd848f5cc028f8c9ae6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:22 +0000
Subject: [PATCH 45/48] fix: a range of categories or identifies that ends
 beyond the greatest number admitted nothing

---
 src/include/fn_channel.h            | 12 ++++++------
 src/include/fn_out_virtual_device.h |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 4576e9b..17d0990 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -74,11 +74,11 @@ namespace FNLog
             long long identify_count =AtomicLoadC(device, DEVICE_CFG_IDENTIFY_EXTEND);
             unsigned long long identify_mask = (unsigned long long)AtomicLoadC(device, DEVICE_CFG_IDENTIFY_MASK);
 
-            if (category_count > 0 && (log.category_ < begin_category || log.category_ >= begin_category + category_count))
+            if (category_count > 0 && (log.category_ < begin_category || (unsigned long long)log.category_ - (unsigned long long)begin_category >= (unsigned long long)category_count))
             {
                 continue;
             }
-            if (identify_count > 0 && (log.identify_ < begin_identify || log.identify_ >= begin_identify + identify_count))
+            if (identify_count > 0 && (log.identify_ < begin_identify || (unsigned long long)log.identify_ - (unsigned long long)begin_identify >= (unsigned long long)identify_count))
             {
                 continue;
             }
@@ -367,11 +367,11 @@ namespace FNLog
         long long identify_count = AtomicLoadC(channel, CHANNEL_CFG_IDENTIFY_EXTEND);
         unsigned long long identify_mask = (unsigned long long)AtomicLoadC(channel, CHANNEL_CFG_IDENTIFY_MASK);
 
-        if (category_count > 0 && (category < begin_category || category >= begin_category + category_count))
+        if (category_count > 0 && (category < begin_category || (unsigned long long)category - (unsigned long long)begin_category >= (unsigned long long)category_count))
         {
             return true;
         }
-        if (identify_count > 0 && (identify < begin_identify || identify >= begin_identify + identify_count))
+        if (identify_count > 0 && (identify < begin_identify || (unsigned long long)identify - (unsigned long long)begin_identify >= (unsigned long long)identify_count))
         {
             return true;
         }
@@ -407,11 +407,11 @@ namespace FNLog
             unsigned long long field_identify_mask = (unsigned long long)fields[FNLog::DEVICE_CFG_IDENTIFY_MASK];
 
 
-            if (field_category_count > 0 && (category < field_begin_category || category >= field_begin_category + field_category_count))
+            if (field_category_count > 0 && (category < field_begin_category || (unsigned long long)category - (unsigned long long)field_begin_category >= (unsigned long long)field_category_count))
             {
                 continue;
             }
-            if (field_identify_count > 0 && (identify < field_begin_identify || identify >= field_begin_identify + field_identify_count))
+            if (field_identify_count > 0 && (identify < field_begin_identify || (unsigned long long)identify - (unsigned long long)field_begin_identify >= (unsigned long long)field_identify_count))
             {
                 continue;
             }
diff --git a/src/include/fn_out_virtual_device.h b/src/include/fn_out_virtual_device.h
index 579597a..4ff869a 100644
--- a/src/include/fn_out_virtual_device.h
+++ b/src/include/fn_out_virtual_device.h
@@ -42,12 +42,12 @@ namespace FNLog
             long long field_identify_count = fields[FNLog::DEVICE_CFG_IDENTIFY_EXTEND];
             unsigned long long field_identify_mask = (unsigned long long)fields[FNLog::DEVICE_CFG_IDENTIFY_MASK];
 
-            if (field_category_count > 0 && (log.category_ < field_begin_category || log.category_ >= field_begin_category + field_category_count))
+            if (field_category_count > 0 && (log.category_ < field_begin_category || (unsigned long long)log.category_ - (unsigned long long)field_begin_category >= (unsigned long long)field_category_count))
             {
                 return;
             }
 
-            if (field_identify_count > 0 && (log.identify_ < field_begin_identify || log.identify_ >= field_begin_identify + field_identify_count))
+            if (field_identify_count > 0 && (log.identify_ < field_begin_identify || (unsigned long long)log.identify_ - (unsigned long long)field_begin_identify >= (unsigned long long)field_identify_count))
             {
                 return;
             }
-- 
2.43.0


From 58cb154c53481ec7f89dd63c26efbe1321bf5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:53 +0000
Subject: [PATCH 46/48] fix: a configuration file of which only a part could be
 read was used as if that were all

---
 src/include/fn_file.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/fn_file.h b/src/include/fn_file.h
index 825824f..5a13d79 100644
--- a/src/include/fn_file.h
+++ b/src/include/fn_file.h
@@ -218,6 +218,10 @@ namespace FNLog
             ret = fread(buf, sizeof(char), BUFSIZ, file_);
             content.append(buf, ret);
         } while (ret == BUFSIZ);
+        if (ferror(file_))
+        {
+            content.clear(); //a part of it can be valid and mean something else. 
+        }
 
         return content;
     }
-- 
2.43.0


From 8735fd53bc95f8baf173f6204f8feb235c46f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 47/48] fix: a virtual device added by a hot update was never
 called

---
 src/include/fn_load.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/fn_load.h b/src/include/fn_load.h
index 6d339fe..f75f3c3 100644
--- a/src/include/fn_load.h
+++ b/src/include/fn_load.h
@@ -409,7 +409,10 @@ namespace FNLog
                 return E_VERSION_MISMATCH;
             }
             memcpy(&dst_chl.devices_[dst_chl.device_size_++], &src_dvc, sizeof(src_dvc));
-            
+            if (src_dvc.out_type_ == DEVICE_OUT_VIRTUAL)
+            {
+                dst_chl.virtual_device_id_ = device_id;
+            }
         }
         AtomicIncChannelLog(dst_chl, CHANNEL_LOG_HOTUPDATE_CHANGE, 1);
         return 0;
-- 
2.43.0


From 437101d430e958f392438b3ecfb797824b8525bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:26 +0000
Subject: [PATCH 48/48] fix: a stop did not wait for the log calls of a
 synchronous channel: they wrote, and left their sockets and files open, after
 it had returned

---
 src/include/fn_channel.h | 11 ++++++++---
 src/include/fn_core.h    | 19 +++++++++++++++++++
 src/include/fn_data.h    |  2 ++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/include/fn_channel.h b/src/include/fn_channel.h
index 17d0990..838f388 100644
--- a/src/include/fn_channel.h
+++ b/src/include/fn_channel.h
@@ -188,7 +188,7 @@ namespace FNLog
             } while (true);  
 
 
-            if (channel.channel_state_ == CHANNEL_STATE_NULL)
+            if (channel.channel_type_ == CHANNEL_ASYNC && channel.channel_state_ == CHANNEL_STATE_NULL)
             {
                 channel.channel_state_ = CHANNEL_STATE_RUNNING;
             }
@@ -531,9 +531,14 @@ namespace FNLog
             }
         } while (channel.channel_state_ == CHANNEL_STATE_RUNNING || channel.channel_state_ == CHANNEL_STATE_WAITING_FINISH);
 
-        if (channel.channel_type_ == CHANNEL_SYNC && channel.channel_state_ == CHANNEL_STATE_RUNNING)
+        if (channel.channel_type_ == CHANNEL_SYNC)
         {
-            EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
+            logger.sync_procs_[channel_id]++; //a stop waits for it.
+            if (channel.channel_state_ == CHANNEL_STATE_RUNNING || channel.channel_state_ == CHANNEL_STATE_WAITING_FINISH)
+            {
+                EnterProcChannel(logger, channel_id); //no affect channel.single_thread_write_
+            }
+            logger.sync_procs_[channel_id]--;
         }
         return 0;
     }
diff --git a/src/include/fn_core.h b/src/include/fn_core.h
index 2d44188..2187b8c 100644
--- a/src/include/fn_core.h
+++ b/src/include/fn_core.h
@@ -97,11 +97,26 @@ namespace FNLog
         {
             static_assert(LogData::LOG_SIZE > Device::MAX_PATH_SYS_LEN * 2 + 100, "");
             Channel& channel = logger.shm_->channels_[channel_id];
+            RingBuffer& ring_buffer = logger.shm_->ring_buffers_[channel_id];
             std::thread& thd = logger.async_threads[channel_id];
             switch (channel.channel_type_)
             {
             case CHANNEL_SYNC:
+                if (channel.channel_state_ == CHANNEL_STATE_RUNNING)
+                {
+                    //the log calls that have a place output it.
+                    channel.channel_state_ = CHANNEL_STATE_WAITING_FINISH;
+                    while (ring_buffer.hold_idx_ != ring_buffer.read_idx_)
+                    {
+                        std::this_thread::sleep_for(std::chrono::milliseconds(1));
+                    }
+                }
                 channel.channel_state_ = CHANNEL_STATE_NULL;
+                std::atomic_thread_fence(std::memory_order_seq_cst);
+                while (logger.sync_procs_[channel_id] != 0)
+                {
+                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
+                }
                 break;
             case CHANNEL_ASYNC:
             {
@@ -411,6 +426,10 @@ namespace FNLog
         logger.logger_state_ = LOGGER_STATE_UNINIT;
         memset(logger.desc_, 0, Logger::MAX_LOGGER_DESC_LEN);
         logger.desc_len_ = 0;
+        for (auto& procs : logger.sync_procs_)
+        {
+            procs = 0;
+        }
         memset(logger.name_, 0, Logger::MAX_LOGGER_NAME_LEN);
         logger.name_len_ = 0;
         memset(logger.freq_limits_, 0, sizeof(logger.freq_limits_));
diff --git a/src/include/fn_data.h b/src/include/fn_data.h
index ef0b9b7..7f8d12b 100644
--- a/src/include/fn_data.h
+++ b/src/include/fn_data.h
@@ -397,6 +397,7 @@ namespace FNLog
         using ReadGuard = AutoGuard<std::mutex>;
 
         using AsyncThreads = std::array<std::thread, MAX_CHANNEL_SIZE>;
+        using SyncProcs = std::array<std::atomic_int, MAX_CHANNEL_SIZE>;
         using FileHandles = std::array<FileHandler, MAX_CHANNEL_SIZE* Channel::MAX_DEVICE_SIZE>;
         using UDPHandles = std::array<UDPHandler, MAX_CHANNEL_SIZE* Channel::MAX_DEVICE_SIZE>;
 
@@ -428,6 +429,7 @@ namespace FNLog
         ReadLocks read_locks_;
         ReadLocks udp_locks_; //the udp in devices of a sync channel; lock before read_locks_
         AsyncThreads async_threads;
+        SyncProcs sync_procs_; //the log calls that output a sync channel
         ScreenLock screen_lock_;
         FileHandles file_handles_;
         UDPHandles udp_handles_;
-- 
2.43.0

