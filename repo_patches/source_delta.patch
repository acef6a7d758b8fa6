From e4fa6fa678b19b37e243dbdd1f878a7ee8a2f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 01/65] fix: page past the last bar so that a page limit of one
 does not end the download early

---
 vectorbt/data/custom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/data/custom.py b/vectorbt/data/custom.py
index 64dee86..2d1563e 100644
--- a/vectorbt/data/custom.py
+++ b/vectorbt/data/custom.py
@@ -490,7 +490,7 @@ class BinanceData(Data):
                     symbol=symbol,
                     interval=interval,
                     limit=limit,
-                    startTime=next_start_ts,
+                    startTime=next_start_ts if len(data) == 0 else next_start_ts + 1,
                     endTime=end_ts,
                 )
                 if len(data) > 0:
@@ -717,7 +717,7 @@ class CCXTData(Data):
             pbar.set_description(_ts_to_str(start_ts))
             while True:
                 # Fetch the klines for the next interval
-                next_data = _fetch(next_start_ts, limit)
+                next_data = _fetch(next_start_ts if len(data) == 0 else next_start_ts + 1, limit)
                 if len(data) > 0:
                     next_data = list(filter(lambda d: next_start_ts < d[0] < end_ts, next_data))
                 else:
-- 
2.43.0


From 37be5acad5071ff5d412def37b87ee96461b4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 02/65] fix: keep the instant of timezone-aware datetimes
 across DST offsets

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 3df2f67..587c1e9 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -150,7 +150,7 @@ def to_tzaware_datetime(
     if not is_tz_aware(dt):
         dt = dt.replace(tzinfo=to_timezone(naive_tz))
     else:
-        dt = dt.replace(tzinfo=to_timezone(dt.tzinfo))
+        dt = dt.astimezone(to_timezone(dt.tzinfo))
     if tz is not None:
         dt = dt.astimezone(to_timezone(tz))
     return dt
-- 
2.43.0


From 326d6f12755a702910769b50dc60ff8f0ae9f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 03/65] fix: do not swallow interrupts while probing the first
 available bar

---
 vectorbt/data/custom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/data/custom.py b/vectorbt/data/custom.py
index 2d1563e..d24f8b6 100644
--- a/vectorbt/data/custom.py
+++ b/vectorbt/data/custom.py
@@ -473,7 +473,7 @@ class BinanceData(Data):
             first_data = client.get_klines(symbol=symbol, interval=interval, limit=1, startTime=0, endTime=None)
             first_valid_ts = first_data[0][0]
             next_start_ts = start_ts = max(start_ts, first_valid_ts)
-        except:
+        except Exception:
             next_start_ts = start_ts
         end_ts = datetime_to_ms(to_tzaware_datetime(end, tz=get_utc_tz()))
 
@@ -704,7 +704,7 @@ class CCXTData(Data):
             first_data = _fetch(0, 1)
             first_valid_ts = first_data[0][0]
             next_start_ts = start_ts = max(start_ts, first_valid_ts)
-        except:
+        except Exception:
             next_start_ts = start_ts
         end_ts = datetime_to_ms(to_tzaware_datetime(end, tz=get_utc_tz()))
 
-- 
2.43.0


From 58293515d09c81b14d1eb3ee28c18524d29abb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 04/65] fix: keep a datetime index when updating across a
 change of UTC offset

---
 vectorbt/data/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index e869b3a..40ff5c9 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -642,6 +642,10 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                         new_obj = new_obj.tz_localize(to_timezone(self.tz_localize))
                 if self.tz_convert is not None:
                     new_obj = new_obj.tz_convert(to_timezone(self.tz_convert))
+                if isinstance(v.index, pd.DatetimeIndex):
+                    if is_tz_aware(v.index) and is_tz_aware(new_obj.index):
+                        # UTC offset may have changed since the download
+                        new_obj = new_obj.tz_convert(v.index.tz)
 
             new_data[k] = new_obj
 
-- 
2.43.0


From fdf4e64265190e30fe55af3929037897976477ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 05/65] fix: do not overwrite old data points with missing
 values when updating multiple symbols

---
 vectorbt/data/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index 40ff5c9..f300719 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -650,6 +650,7 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             new_data[k] = new_obj
 
         # Align index and columns
+        fetched_index = {k: v.index for k, v in new_data.items()}
         new_data = self.align_index(new_data, missing=self.missing_index)
         new_data = self.align_columns(new_data, missing=self.missing_columns)
 
@@ -660,6 +661,8 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
                     v = v[self.data[k].name]
             else:
                 v = v[self.data[k].columns]
+            # Data points that were only added by alignment must not overwrite old data points
+            v = v[v.index.isin(fetched_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
             v = v[~v.index.duplicated(keep="last")]
             if isinstance(v.index, pd.DatetimeIndex):
-- 
2.43.0


From 8904bee4bb2ccad010d1f5fa7fcb53d3c255196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 06/65] fix: keep the index ordered when an update re-fetches
 only a part of the last rows

---
 vectorbt/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/data/base.py b/vectorbt/data/base.py
index f300719..9245382 100644
--- a/vectorbt/data/base.py
+++ b/vectorbt/data/base.py
@@ -665,6 +665,8 @@ class Data(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaData):
             v = v[v.index.isin(fetched_index[k]) | ~v.index.isin(self.data[k].index)]
             v = pd.concat((self.data[k], v), axis=0)
             v = v[~v.index.duplicated(keep="last")]
+            if not v.index.is_monotonic_increasing:
+                v = v.sort_index()
             if isinstance(v.index, pd.DatetimeIndex):
                 v.index.freq = v.index.inferred_freq
             new_data[k] = v
-- 
2.43.0


From 9b0966a0fca9b5b0c7eb1cef704284d3d72f28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 07/65] fix: respect the deadline of asynchronously run jobs

---
 vectorbt/utils/schedule_.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index d79f60a..c6b73ea 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -27,12 +27,20 @@ class CancelledError(asyncio.CancelledError):
 class AsyncJob(Job):
     async def async_run(self) -> tp.Any:
         """Async `Job.run`."""
+        if self._is_overdue(datetime.now()):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
+
         logger.info("Running job %s", self)
         ret = self.job_func()
         if inspect.isawaitable(ret):
             ret = await ret
         self.last_run = datetime.now()
         self._schedule_next_run()
+
+        if self._is_overdue(self.next_run):
+            logger.info("Cancelling job %s", self)
+            return CancelJob
         return ret
 
 
-- 
2.43.0


From 394fa4a5c5c377ef456cbd812d805ce1d06b9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 08/65] fix: run asynchronous jobs in the order they are due

---
 vectorbt/utils/schedule_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index c6b73ea..7e0feb0 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -48,7 +48,7 @@ class AsyncScheduler(Scheduler):
     async def async_run_pending(self) -> None:
         """Async `Scheduler.run_pending`."""
         runnable_jobs = (job for job in self.jobs if job.should_run)
-        await asyncio.gather(*[self._async_run_job(job) for job in runnable_jobs])
+        await asyncio.gather(*[self._async_run_job(job) for job in sorted(runnable_jobs)])
 
     async def async_run_all(self, delay_seconds: int = 0) -> None:
         """Async `Scheduler.run_all`."""
-- 
2.43.0


From a425404f0fa9c145b4d80f3e7fcf156f11c572c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 09/65] fix: do not leave an unstoppable task behind when
 starting in the background again

---
 vectorbt/utils/schedule_.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/schedule_.py b/vectorbt/utils/schedule_.py
index 7e0feb0..6fd424d 100644
--- a/vectorbt/utils/schedule_.py
+++ b/vectorbt/utils/schedule_.py
@@ -270,7 +270,10 @@ class ScheduleManager:
         logger.info(async_task)
 
     def start_in_background(self, **kwargs) -> None:
-        """Run `ScheduleManager.async_start` in the background."""
+        """Run `ScheduleManager.async_start` in the background.
+
+        Replaces the task that is already running, if any."""
+        self.stop()
         async_task = asyncio.create_task(self.async_start(**kwargs))
         async_task.add_done_callback(self.done_callback)
         logger.info(async_task)
-- 
2.43.0


From f83d03ce1dda4fc5109f35c14a24186f5b59c21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 10/65] fix: allow starting a stopped bot again by keeping its
 event loop

---
 vectorbt/messaging/telegram.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index ffabba4..60020ba 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -164,6 +164,7 @@ if __version_info__ >= (20, 0):
             # Create the (persistent) Application and pass it your bot's token.
             logger.info("Initializing bot")
             self._application = builder.build()
+            self._event_loop = None
             self._loop = None
             self._thread = None
             self._stop_future = None
@@ -307,7 +308,10 @@ if __version_info__ >= (20, 0):
                     self._stopped_event.set()
 
         def _run_loop(self, polling_kwargs: dict) -> None:
-            loop = asyncio.new_event_loop()
+            # The application binds to the first event loop it runs in, thus use the same loop for every run
+            if self._event_loop is None:
+                self._event_loop = asyncio.new_event_loop()
+            loop = self._event_loop
             self._loop = loop
             task = None
             asyncio.set_event_loop(loop)
@@ -325,7 +329,6 @@ if __version_info__ >= (20, 0):
                     if task is not None and not task.done():
                         self._request_stop()
                         loop.run_until_complete(task)
-                    loop.close()
                 finally:
                     self._loop = None
 
-- 
2.43.0


From 9ce196ced32d55ac4add6bc735687ee169167acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 11/65] fix: do not lose a stop request made while the bot is
 starting, nor start the bot twice at once

---
 vectorbt/messaging/telegram.py | 72 +++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 27 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index 60020ba..3007d89 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -172,6 +172,9 @@ if __version_info__ >= (20, 0):
             self._stopped_event = threading.Event()
             self._stopped_event.set()
             self._startup_error = None
+            self._state_lock = threading.Lock()
+            self._active = False
+            self._stop_requested = False
 
             # Register handlers
             self.dispatcher.add_handler(self.log_handler)
@@ -272,8 +275,10 @@ if __version_info__ >= (20, 0):
             initialized = False
             application_stopped = False
             updater_started = False
-            if self._stop_future is None or self._stop_future.done():
+            with self._state_lock:
                 self._stop_future = asyncio.get_running_loop().create_future()
+                if self._stop_requested:
+                    self._stop_future.set_result(None)
             try:
                 await _maybe_await(self.application.initialize())
                 initialized = True
@@ -316,7 +321,6 @@ if __version_info__ >= (20, 0):
             task = None
             asyncio.set_event_loop(loop)
             try:
-                self._stop_future = loop.create_future()
                 task = loop.create_task(self._polling_main(polling_kwargs))
                 try:
                     loop.run_until_complete(task)
@@ -330,7 +334,10 @@ if __version_info__ >= (20, 0):
                         self._request_stop()
                         loop.run_until_complete(task)
                 finally:
-                    self._loop = None
+                    with self._state_lock:
+                        self._loop = None
+                        self._stop_future = None
+                        self._active = False
 
         def _run_async(self, value: tp.Any) -> tp.Any:
             if not inspect.isawaitable(value):
@@ -354,17 +361,27 @@ if __version_info__ >= (20, 0):
 
             `**kwargs` are passed to `telegram.ext.Updater.start_polling`
             and override settings under `messaging.telegram` in `vectorbt._settings.settings`."""
-            if self._thread is not None and self._thread.is_alive():
-                return
-
             polling_kwargs = self._resolve_polling_kwargs(kwargs)
-            self._started_event.clear()
-            self._stopped_event.clear()
-            self._startup_error = None
+            with self._state_lock:
+                if self._active:
+                    return
+                self._active = True
+                self._stop_requested = False
+                self._started_event.clear()
+                self._stopped_event.clear()
+                self._startup_error = None
+                self._thread = None
+                if in_background:
+                    self._thread = threading.Thread(target=self._run_loop, args=(polling_kwargs,), daemon=True)
+                    try:
+                        self._thread.start()
+                    except BaseException:
+                        self._thread = None
+                        self._active = False
+                        self._stopped_event.set()
+                        raise
 
             if in_background:
-                self._thread = threading.Thread(target=self._run_loop, args=(polling_kwargs,), daemon=True)
-                self._thread.start()
                 self._started_event.wait()
                 if self._startup_error is not None:
                     raise self._startup_error
@@ -485,22 +502,23 @@ if __version_info__ >= (20, 0):
         def stop(self) -> None:
             """Stop the bot."""
             logger.info("Stopping bot")
-            self._request_stop()
-            if self._thread is not None and self._thread.is_alive() and self._thread is not threading.current_thread():
-                self._thread.join()
-
-        def _request_stop(self) -> None:
-            if self._stop_future is None:
-                return
-
-            def _stop() -> None:
-                if not self._stop_future.done():
-                    self._stop_future.set_result(None)
-
-            if self._loop is not None and self._loop.is_running():
-                self._loop.call_soon_threadsafe(_stop)
-            else:
-                _stop()
+            thread = self._request_stop()
+            if thread is not None and thread.is_alive() and thread is not threading.current_thread():
+                thread.join()
+
+        def _request_stop(self) -> tp.Optional[threading.Thread]:
+            def _stop(stop_future: asyncio.Future) -> None:
+                if not stop_future.done():
+                    stop_future.set_result(None)
+
+            with self._state_lock:
+                if not self._active:
+                    return None
+                # Remember the request in case polling hasn't been set up yet
+                self._stop_requested = True
+                if self._stop_future is not None:
+                    self._loop.call_soon_threadsafe(_stop, self._stop_future)
+                return self._thread
 
         @property
         def running(self) -> bool:
-- 
2.43.0


From 584c111edc7c49b96745eb20bd8b917a398c2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 12/65] fix: shut everything down when the bot fails to start
 or to stop polling

---
 vectorbt/messaging/telegram.py | 48 ++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index 3007d89..a4262ca 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -171,7 +171,7 @@ if __version_info__ >= (20, 0):
             self._started_event = threading.Event()
             self._stopped_event = threading.Event()
             self._stopped_event.set()
-            self._startup_error = None
+            self._startup_errors = []
             self._state_lock = threading.Lock()
             self._active = False
             self._stop_requested = False
@@ -293,24 +293,29 @@ if __version_info__ >= (20, 0):
                 self._started_event.set()
                 await self._stop_future
             except BaseException as e:
-                self._startup_error = e
+                self._startup_errors.append(e)
                 self._started_event.set()
                 raise
             finally:
+                # A failing step must not prevent the following steps
                 try:
                     if updater_started and self.updater is not None:
                         await _maybe_await(self.updater.stop())
-                    if getattr(self.application, "running", False):
-                        await _maybe_await(self.application.stop())
-                        application_stopped = True
-                    if application_stopped and self.application.post_stop:
-                        await _maybe_await(self.application.post_stop(self.application))
-                    if initialized:
-                        await _maybe_await(self.application.shutdown())
-                        if self.application.post_shutdown:
-                            await _maybe_await(self.application.post_shutdown(self.application))
                 finally:
-                    self._stopped_event.set()
+                    try:
+                        if getattr(self.application, "running", False):
+                            await _maybe_await(self.application.stop())
+                            application_stopped = True
+                        if application_stopped and self.application.post_stop:
+                            await _maybe_await(self.application.post_stop(self.application))
+                    finally:
+                        try:
+                            if initialized:
+                                await _maybe_await(self.application.shutdown())
+                                if self.application.post_shutdown:
+                                    await _maybe_await(self.application.post_shutdown(self.application))
+                        finally:
+                            self._stopped_event.set()
 
         def _run_loop(self, polling_kwargs: dict) -> None:
             # The application binds to the first event loop it runs in, thus use the same loop for every run
@@ -367,24 +372,27 @@ if __version_info__ >= (20, 0):
                     return
                 self._active = True
                 self._stop_requested = False
-                self._started_event.clear()
+                # Own objects for each run, another run may begin before this one is evaluated
+                self._started_event = started_event = threading.Event()
+                self._startup_errors = startup_errors = []
                 self._stopped_event.clear()
-                self._startup_error = None
                 self._thread = None
                 if in_background:
-                    self._thread = threading.Thread(target=self._run_loop, args=(polling_kwargs,), daemon=True)
+                    thread = threading.Thread(target=self._run_loop, args=(polling_kwargs,), daemon=True)
                     try:
-                        self._thread.start()
+                        thread.start()
                     except BaseException:
-                        self._thread = None
                         self._active = False
                         self._stopped_event.set()
                         raise
+                    self._thread = thread
 
             if in_background:
-                self._started_event.wait()
-                if self._startup_error is not None:
-                    raise self._startup_error
+                started_event.wait()
+                if len(startup_errors) > 0:
+                    # Wait until everything that has been started is shut down again
+                    thread.join()
+                    raise startup_errors[0]
                 return
 
             try:
-- 
2.43.0


From 0378df29b9ac0ef917f87892072aee9cf19ffaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 13/65] fix: never leave callers of the bot waiting for an
 event loop that does not run

---
 vectorbt/messaging/telegram.py | 54 +++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index a4262ca..6ed3bed 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -318,14 +318,15 @@ if __version_info__ >= (20, 0):
                             self._stopped_event.set()
 
         def _run_loop(self, polling_kwargs: dict) -> None:
-            # The application binds to the first event loop it runs in, thus use the same loop for every run
-            if self._event_loop is None:
-                self._event_loop = asyncio.new_event_loop()
-            loop = self._event_loop
-            self._loop = loop
             task = None
-            asyncio.set_event_loop(loop)
             try:
+                # The application binds to the first event loop it runs in, thus use the same loop for every run
+                if self._event_loop is None:
+                    self._event_loop = asyncio.new_event_loop()
+                loop = self._event_loop
+                asyncio.set_event_loop(loop)
+                with self._state_lock:
+                    self._loop = loop
                 task = loop.create_task(self._polling_main(polling_kwargs))
                 try:
                     loop.run_until_complete(task)
@@ -333,6 +334,9 @@ if __version_info__ >= (20, 0):
                     self._request_stop()
                     if not task.done():
                         loop.run_until_complete(task)
+            except BaseException as e:
+                self._startup_errors.append(e)
+                raise
             finally:
                 try:
                     if task is not None and not task.done():
@@ -340,21 +344,43 @@ if __version_info__ >= (20, 0):
                         loop.run_until_complete(task)
                 finally:
                     with self._state_lock:
+                        # From now on, no other thread can submit anything to the loop
                         self._loop = None
                         self._stop_future = None
-                        self._active = False
+                    try:
+                        if task is not None:
+                            self._finish_submitted(loop)
+                    finally:
+                        with self._state_lock:
+                            self._active = False
+                            self._started_event.set()
+
+        @staticmethod
+        def _finish_submitted(loop: asyncio.AbstractEventLoop) -> None:
+            """Finish coroutines submitted from other threads such that nobody waits for them forever."""
+
+            async def _gather() -> None:
+                tasks = asyncio.all_tasks() - {asyncio.current_task()}
+                await asyncio.gather(*tasks, return_exceptions=True)
+
+            loop.run_until_complete(_gather())
 
         def _run_async(self, value: tp.Any) -> tp.Any:
             if not inspect.isawaitable(value):
                 return value
-            if self._loop is not None and self._loop.is_running():
-                try:
-                    running_loop = asyncio.get_running_loop()
-                except RuntimeError:
-                    running_loop = None
-                if running_loop is self._loop:
+            try:
+                running_loop = asyncio.get_running_loop()
+            except RuntimeError:
+                running_loop = None
+            with self._state_lock:
+                if self._loop is None:
+                    future = None
+                elif self._loop is running_loop:
                     raise RuntimeError("Cannot call blocking TelegramBot method from the bot event loop")
-                return asyncio.run_coroutine_threadsafe(value, self._loop).result()
+                else:
+                    future = asyncio.run_coroutine_threadsafe(value, self._loop)
+            if future is not None:
+                return future.result()
             loop = asyncio.new_event_loop()
             try:
                 return loop.run_until_complete(value)
-- 
2.43.0


From d2ea2fae398df4a6e2723792f7b79a575ca901b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 14/65] fix: list each subscribed chat once and deliver each
 broadcast once across chat migrations

---
 vectorbt/messaging/telegram.py | 95 ++++++++++++++++++++++++----------
 1 file changed, 69 insertions(+), 26 deletions(-)

diff --git a/vectorbt/messaging/telegram.py b/vectorbt/messaging/telegram.py
index 6ed3bed..213b3cc 100644
--- a/vectorbt/messaging/telegram.py
+++ b/vectorbt/messaging/telegram.py
@@ -22,6 +22,27 @@ from vectorbt.utils.requests_ import text_to_giphy_url
 
 logger = logging.getLogger(__name__)
 
+_chat_ids_lock = threading.Lock()
+
+
+def _add_chat_id(chat_ids: tp.List[int], chat_id: int) -> None:
+    """Add `chat_id` to `chat_ids` in-place unless already there."""
+    with _chat_ids_lock:
+        if chat_id not in chat_ids:
+            chat_ids.append(chat_id)
+
+
+def _replace_chat_id(chat_ids: tp.List[int], old_id: int, new_id: int) -> None:
+    """Replace `old_id` by `new_id` in `chat_ids` in-place, if present.
+
+    The same migration is usually reported more than once."""
+    with _chat_ids_lock:
+        if old_id != new_id and old_id in chat_ids:
+            if new_id in chat_ids:
+                chat_ids.remove(old_id)
+            else:
+                chat_ids[chat_ids.index(old_id)] = new_id
+
 
 if __version_info__ >= (20, 0):
     from telegram import Update
@@ -432,8 +453,22 @@ if __version_info__ >= (20, 0):
             Override to execute custom commands upon starting the bot."""
             self.send_message_to_all("I'm back online!")
 
-        def send(self, kind: str, chat_id: int, *args, log_msg: tp.Optional[str] = None, **kwargs) -> None:
-            """Send message of any kind to `chat_id`."""
+        def send(
+            self,
+            kind: str,
+            chat_id: int,
+            *args,
+            log_msg: tp.Optional[str] = None,
+            sent_ids: tp.Optional[tp.Set[int]] = None,
+            **kwargs,
+        ) -> None:
+            """Send message of any kind to `chat_id`.
+
+            Skips chats in `sent_ids` and adds `chat_id` to them."""
+            if sent_ids is not None:
+                if chat_id in sent_ids:
+                    return
+                sent_ids.add(chat_id)
             try:
                 self._run_async(getattr(self.application.bot, "send_" + kind)(chat_id, *args, **kwargs))
                 if log_msg is None:
@@ -442,18 +477,18 @@ if __version_info__ >= (20, 0):
             except ChatMigrated as e:
                 # transfer data, if old data is still present
                 new_id = e.new_chat_id
-                if chat_id in self.chat_ids:
-                    self.chat_ids.remove(chat_id)
-                self.chat_ids.append(new_id)
+                _replace_chat_id(self.chat_ids, chat_id, new_id)
                 # Resend to new chat id
-                self.send(kind, new_id, *args, log_msg=log_msg, **kwargs)
+                self.send(kind, new_id, *args, log_msg=log_msg, sent_ids=sent_ids, **kwargs)
             except Forbidden:
                 logger.info(f"{chat_id} - Unauthorized to send the %s", kind)
 
         def send_to_all(self, kind: str, *args, **kwargs) -> None:
             """Send message of any kind to all in `TelegramBot.chat_ids`."""
-            for chat_id in self.chat_ids:
-                self.send(kind, chat_id, *args, **kwargs)
+            # Chat ids may change while sending, and a chat may be listed under both its old and new id
+            sent_ids = set()
+            for chat_id in list(self.chat_ids):
+                self.send(kind, chat_id, *args, sent_ids=sent_ids, **kwargs)
 
         def send_message(self, chat_id: int, text: str, *args, **kwargs) -> None:
             """Send text message to `chat_id`."""
@@ -492,8 +527,7 @@ if __version_info__ >= (20, 0):
             """Start command callback."""
             if isinstance(update, Update) and update.effective_chat:
                 chat_id = update.effective_chat.id
-                if chat_id not in self.chat_ids:
-                    self.chat_ids.append(chat_id)
+                _add_chat_id(self.chat_ids, chat_id)
                 self.send_message(chat_id, self.start_message)
 
         @property
@@ -514,9 +548,7 @@ if __version_info__ >= (20, 0):
             if isinstance(update, Update) and update.message:
                 old_id = update.message.migrate_from_chat_id or update.message.chat_id
                 new_id = update.message.migrate_to_chat_id or update.message.chat_id
-                if old_id in self.chat_ids:
-                    self.chat_ids.remove(old_id)
-                self.chat_ids.append(new_id)
+                _replace_chat_id(self.chat_ids, old_id, new_id)
                 logger.info(f"{old_id} - Chat migrated to {new_id}")
 
         def unknown_callback(self, update: object, context: CallbackContext) -> None:
@@ -737,8 +769,22 @@ else:
             Override to execute custom commands upon starting the bot."""
             self.send_message_to_all("I'm back online!")
 
-        def send(self, kind: str, chat_id: int, *args, log_msg: tp.Optional[str] = None, **kwargs) -> None:
-            """Send message of any kind to `chat_id`."""
+        def send(
+            self,
+            kind: str,
+            chat_id: int,
+            *args,
+            log_msg: tp.Optional[str] = None,
+            sent_ids: tp.Optional[tp.Set[int]] = None,
+            **kwargs,
+        ) -> None:
+            """Send message of any kind to `chat_id`.
+
+            Skips chats in `sent_ids` and adds `chat_id` to them."""
+            if sent_ids is not None:
+                if chat_id in sent_ids:
+                    return
+                sent_ids.add(chat_id)
             try:
                 getattr(self.updater.bot, "send_" + kind)(chat_id, *args, **kwargs)
                 if log_msg is None:
@@ -747,18 +793,18 @@ else:
             except ChatMigrated as e:
                 # transfer data, if old data is still present
                 new_id = e.new_chat_id
-                if chat_id in self.chat_ids:
-                    self.chat_ids.remove(chat_id)
-                self.chat_ids.append(new_id)
+                _replace_chat_id(self.chat_ids, chat_id, new_id)
                 # Resend to new chat id
-                self.send(kind, new_id, *args, log_msg=log_msg, **kwargs)
+                self.send(kind, new_id, *args, log_msg=log_msg, sent_ids=sent_ids, **kwargs)
             except Unauthorized:
                 logger.info(f"{chat_id} - Unauthorized to send the %s", kind)
 
         def send_to_all(self, kind: str, *args, **kwargs) -> None:
             """Send message of any kind to all in `TelegramBot.chat_ids`."""
-            for chat_id in self.chat_ids:
-                self.send(kind, chat_id, *args, **kwargs)
+            # Chat ids may change while sending, and a chat may be listed under both its old and new id
+            sent_ids = set()
+            for chat_id in list(self.chat_ids):
+                self.send(kind, chat_id, *args, sent_ids=sent_ids, **kwargs)
 
         def send_message(self, chat_id: int, text: str, *args, **kwargs) -> None:
             """Send text message to `chat_id`."""
@@ -797,8 +843,7 @@ else:
             """Start command callback."""
             if isinstance(update, Update) and update.effective_chat:
                 chat_id = update.effective_chat.id
-                if chat_id not in self.chat_ids:
-                    self.chat_ids.append(chat_id)
+                _add_chat_id(self.chat_ids, chat_id)
                 self.send_message(chat_id, self.start_message)
 
         @property
@@ -819,9 +864,7 @@ else:
             if isinstance(update, Update) and update.message:
                 old_id = update.message.migrate_from_chat_id or update.message.chat_id
                 new_id = update.message.migrate_to_chat_id or update.message.chat_id
-                if old_id in self.chat_ids:
-                    self.chat_ids.remove(old_id)
-                self.chat_ids.append(new_id)
+                _replace_chat_id(self.chat_ids, old_id, new_id)
                 logger.info(f"{old_id} - Chat migrated to {new_id}")
 
         def unknown_callback(self, update: object, context: CallbackContext) -> None:
-- 
2.43.0


From ff9286c239767c390bb0ee4cf8d953a87c7e47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 15/65] fix: buying less than one size step ignores the order
 instead of filling zero size

---
 vectorbt/portfolio/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index f54b4a0..dbc1962 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -176,7 +176,7 @@ def buy_nb(
             fees_paid = cash_limit - max_req_cash
             final_req_cash = cash_limit
 
-    if is_close_nb(adj_size, 0):
+    if is_close_nb(final_size, 0):
         return exec_state, order_not_filled_nb(OrderStatus.Ignored, OrderStatusInfo.SizeZero)
 
     # Check against minimum size
-- 
2.43.0


From ee836d38768ae467f7c6ab2c62d6dd2b3dff1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 16/65] fix: zero percent of resources is a zero-size order,
 not a fill of NaN

---
 vectorbt/portfolio/nb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index dbc1962..bb00754 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -461,8 +461,9 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
     percent = np.nan
     if order_size_type == SizeType.Percent:
         # Percentage of resources
-        percent = abs(order_size)
-        order_size = np.sign(order_size) * np.inf
+        if order_size != 0:
+            percent = abs(order_size)
+            order_size = np.sign(order_size) * np.inf
         order_size_type = SizeType.Amount
 
     if order_size > 0:
-- 
2.43.0


From f38ec13aba43f710d567ffb6d9c74fc1c703902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 17/65] fix: selling more than 100 percent in long-only
 direction closes the position instead of going short

---
 vectorbt/portfolio/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index bb00754..28d36cb 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -275,6 +275,8 @@ def sell_nb(
     if not np.isnan(percent):
         # Apply percentage
         size_limit = percent * size_limit
+        if direction == Direction.LongOnly:
+            size_limit = min(exec_state.position, size_limit)
 
     if size_limit > max_size:
         if not allow_partial:
-- 
2.43.0


From 898929bf45467626cf460a848295b75952f892ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:24 +0000
Subject: [PATCH 18/65] fix: covering a short with locked cash never spends
 locked cash nor divides by zero

---
 vectorbt/portfolio/nb.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 28d36cb..e4dd4f7 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -104,8 +104,13 @@ def buy_nb(
             elif cover_free_cash < 0:
                 # Not enough cash to close out the short position
                 avg_entry_price = exec_state.debt / abs(exec_state.position)
-                max_short_size = (exec_state.free_cash - fixed_fees) / (adj_price * (1 + fees) - 2 * avg_entry_price)
-                cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                unit_req_cash = adj_price * (1 + fees) - 2 * avg_entry_price
+                if unit_req_cash > 0:
+                    max_short_size = (exec_state.free_cash - fixed_fees) / unit_req_cash
+                    cash_limit = max_short_size * adj_price * (1 + fees) + fixed_fees
+                else:
+                    # Covering itself takes no free cash, but nothing is left to open a long position
+                    cash_limit = cover_req_cash
             else:
                 # Exact amount of cash to close out the short position
                 cash_limit = exec_state.cash
@@ -205,6 +210,10 @@ def buy_nb(
         new_debt = exec_state.debt
         new_free_cash = add_nb(exec_state.free_cash, -final_req_cash)
 
+    # Fees may not be paid from locked cash
+    if lock_cash and is_less_nb(new_free_cash, min(exec_state.free_cash, 0.0)):
+        return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.CantCoverFees)
+
     # Return filled order
     order_result = OrderResult(final_size, adj_price, fees_paid, OrderSide.Buy, OrderStatus.Filled, -1)
     new_exec_state = ExecuteOrderState(cash=new_cash, position=new_position, debt=new_debt, free_cash=new_free_cash)
-- 
2.43.0


From 50704f57ee7dae2a32cf262cdc6bdd616a185eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 19/65] fix: target of zero percent closes the position also
 when the value is infinite

---
 vectorbt/portfolio/nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index e4dd4f7..5b8c32c 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -441,7 +441,8 @@ def execute_order_nb(state: ProcessOrderState, order: Order) -> tp.Tuple[Execute
         if value <= 0:
             return exec_state, order_not_filled_nb(OrderStatus.Rejected, OrderStatusInfo.ValueZeroNeg)
 
-        order_size *= value
+        if order_size != 0:
+            order_size *= value
         order_size_type = SizeType.TargetValue
 
     if order_size_type == SizeType.Value or order_size_type == SizeType.TargetValue:
-- 
2.43.0


From b419c62f450bdb5b919ecaa40b255a5dcd9eeebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 20/65] fix: portfolio value in simulation order follows the
 columns when the call sequence changes between rows

---
 vectorbt/portfolio/nb.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 5b8c32c..969a30e 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6833,26 +6833,27 @@ def value_in_sim_order_nb(
         to_col = from_col + group_lens[group]
         group_len = to_col - from_col
         asset_value_now = 0.0
+        # Latest asset value of each column, since the call sequence may change from row to row
+        last_asset_value = np.full(group_len, 0.0, dtype=np.float64)
         # Without correctly treating NaN values, after one NaN all will be NaN
-        since_last_nan = group_len
+        nan_count = 0
         for j in range(cash.shape[0] * group_len):
             i = j // group_len
-            col = from_col + call_seq[i, from_col + j % group_len]
-            if j >= group_len:
-                last_j = j - group_len
-                last_i = last_j // group_len
-                last_col = from_col + call_seq[last_i, from_col + last_j % group_len]
-                if not np.isnan(asset_value[last_i, last_col]):
-                    asset_value_now -= asset_value[last_i, last_col]
+            k = call_seq[i, from_col + j % group_len]
+            col = from_col + k
+            if np.isnan(last_asset_value[k]):
+                nan_count -= 1
+            else:
+                asset_value_now -= last_asset_value[k]
+            last_asset_value[k] = asset_value[i, col]
             if np.isnan(asset_value[i, col]):
-                since_last_nan = 0
+                nan_count += 1
             else:
                 asset_value_now += asset_value[i, col]
-            if since_last_nan < group_len:
+            if nan_count > 0:
                 out[i, col] = np.nan
             else:
                 out[i, col] = cash[i, col] + asset_value_now
-            since_last_nan += 1
 
         from_col = to_col
     return out
-- 
2.43.0


From 4b2dc17f5cff058bef3ca7dbc4290a5a5a467d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:42 +0000
Subject: [PATCH 21/65] fix: total profit of a closed position does not need
 the last price

---
 vectorbt/portfolio/nb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/portfolio/nb.py b/vectorbt/portfolio/nb.py
index 969a30e..78a39b9 100644
--- a/vectorbt/portfolio/nb.py
+++ b/vectorbt/portfolio/nb.py
@@ -6914,6 +6914,9 @@ def total_profit_nb(
 
     total_profit = cash + assets * close[-1, :]
     total_profit[zero_mask] = 0.0
+    for col in range(target_shape[1]):
+        if assets[col] == 0:  # for price being NaN
+            total_profit[col] = cash[col]
     return total_profit
 
 
-- 
2.43.0


From d872f47bbe611f371143f3e2aaa4a4412ffaf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:16 +0000
Subject: [PATCH 22/65] fix: open trades are valued at the filled close like
 the portfolio they belong to

---
 vectorbt/portfolio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/portfolio/base.py b/vectorbt/portfolio/base.py
index 0f5fb81..52b4b6d 100644
--- a/vectorbt/portfolio/base.py
+++ b/vectorbt/portfolio/base.py
@@ -4242,6 +4242,8 @@ class Portfolio(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaPo
         """Get entry trade records.
 
         See `vectorbt.portfolio.trades.EntryTrades`."""
+        if self.fillna_close:
+            kwargs.setdefault("close", self.get_filled_close())
         return EntryTrades.from_orders(self.orders, engine=self.engine, **kwargs).regroup(group_by)
 
     @cached_property
@@ -4254,6 +4256,8 @@ class Portfolio(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=MetaPo
         """Get exit trade records.
 
         See `vectorbt.portfolio.trades.ExitTrades`."""
+        if self.fillna_close:
+            kwargs.setdefault("close", self.get_filled_close())
         return ExitTrades.from_orders(self.orders, engine=self.engine, **kwargs).regroup(group_by)
 
     @cached_property
-- 
2.43.0


From 7363bbcbea7f9385889924b366f36aba0763bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 23/65] fix: an entry without an exit keeps later entries
 skipped, whatever the future holds

---
 vectorbt/signals/nb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index a73da58..e4a989d 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -140,6 +140,9 @@ def generate_ex_nb(
                 # Run the UDF
                 idxs = exit_choice_func_nb(from_i, to_i, col, *args)
                 if len(idxs) == 0:
+                    if skip_until_exit and not until_next:
+                        # The entry is still waiting for its exit, as it would be if the exit came after the last row
+                        break
                     continue
                 if pick_first:
                     first_i = idxs[0]
-- 
2.43.0


From 4e83de5474ad7b14b242a78eaa0f02ec6070b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 24/65] fix: stop price and type buffers of a single column are
 writable under pandas 3

---
 vectorbt/signals/accessors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/signals/accessors.py b/vectorbt/signals/accessors.py
index 7f60161..d7b869d 100644
--- a/vectorbt/signals/accessors.py
+++ b/vectorbt/signals/accessors.py
@@ -1072,8 +1072,8 @@ class SignalsAccessor(GenericAccessor):
             stop_type_out = np.empty(shape, dtype=np.int64)
         else:
             stop_type_out = out_args[0]
-        stop_price_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64)
-        stop_type_out = np.ascontiguousarray(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64)
+        stop_price_out = np.require(reshape_fns.to_2d_array(stop_price_out), dtype=np.float64, requirements=["C", "W"])
+        stop_type_out = np.require(reshape_fns.to_2d_array(stop_type_out), dtype=np.int64, requirements=["C", "W"])
 
         # Perform generation
         if chain:
-- 
2.43.0


From 2c3eee701602ea5239fc1352446131f18e27aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 25/65] fix: selecting three or more groups keeps every column
 in its group

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index c0a84d7..4d73dcd 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -311,7 +311,7 @@ class ArrayWrapper(Configured, PandasIndexer):
                 # We could do _self.group_by[ungrouped_col_idxs] but indexing operation may have changed the labels
                 group_lens = _self.grouper.get_group_lens()[group_idxs_arr]
                 ungrouped_group_idxs = np.full(len(ungrouped_columns), 0)
-                ungrouped_group_idxs[group_lens[:-1]] = 1
+                ungrouped_group_idxs[np.cumsum(group_lens[:-1])] = 1
                 ungrouped_group_idxs = np.cumsum(ungrouped_group_idxs)
 
                 return (
-- 
2.43.0


From 5079bdc7508ccd0bb5ee1c7593015991db5cf46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:51 +0000
Subject: [PATCH 26/65] fix: random entry-exit pairs with a count of zero give
 no signals for any wait

---
 vectorbt/signals/nb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/signals/nb.py b/vectorbt/signals/nb.py
index e4a989d..5b72662 100644
--- a/vectorbt/signals/nb.py
+++ b/vectorbt/signals/nb.py
@@ -450,6 +450,8 @@ def generate_rand_enex_nb(
     else:
         for col in range(shape[1]):
             _n = flex_select_auto_nb(ns, 0, col, True)
+            if _n == 0:
+                continue
             if _n == 1:
                 entry_idx = np.random.randint(0, shape[0] - exit_wait)
                 entries[entry_idx, col] = True
-- 
2.43.0


From c5b5fd893cd2ef827202b2a2e7b6c6a60f7a0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 27/65] fix: cached methods do not mix up results of equal
 arguments of different types

---
 vectorbt/utils/decorators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 38bf532..b784303 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -359,7 +359,7 @@ def custom_method(*args, **flags) -> tp.Union[tp.Callable, custom_methodT]:
     ```
     and
     ```pycon
-    >>> @cached_method(maxsize=128, typed=False, a=0, b=0)  # flags
+    >>> @cached_method(maxsize=128, typed=True, a=0, b=0)  # flags
     ... def user_function(): pass
     ```
     """
@@ -392,10 +392,11 @@ class cached_methodT(custom_methodT):
     def __call__(self, *args, **kwargs) -> tp.Any: ...
 
 
-def cached_method(*args, maxsize: int = 128, typed: bool = False, **flags) -> tp.Union[tp.Callable, cached_methodT]:
+def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.Union[tp.Callable, cached_methodT]:
     """Extends `custom_method` with caching.
 
-    Internally uses `functools.lru_cache`.
+    Internally uses `functools.lru_cache`. Arguments of different types are cached separately
+    (`group_by=0` and `group_by=False` are equal but ask for different things), unless `typed` is False.
 
     Disables caching if `should_cache` yields False or a non-hashable object
     as argument has been passed.
-- 
2.43.0


From b56b9f072bf6519d305391f7e9e787768838e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 28/65] fix: a caching condition on a cached method does not
 break cached properties

---
 vectorbt/utils/decorators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index b784303..c64b628 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -204,8 +204,8 @@ def should_cache(func_name: str, instance: object, func: tp.Optional[tp.Callable
             if isinstance(cond.func, cached_property):  # cached_property
                 if func != cond.func.func:
                     return start_rank
-            elif callable(cond.func) and hasattr(func, "func") and hasattr(cond.func, "func"):  # cached_method
-                if func.func != cond.func.func:
+            elif callable(cond.func) and hasattr(cond.func, "func"):  # cached_method
+                if getattr(func, "func", None) != cond.func.func:
                     return start_rank
             elif isinstance(cond.func, str):
                 if func_name != cond.func:
-- 
2.43.0


From 0978d9ced12207c691e37d1b2084d7dea86561cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 29/65] fix: an overriding cached property or method does not
 share its cache with the overridden one

---
 vectorbt/utils/decorators.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index c64b628..9a37837 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -317,8 +317,10 @@ class cached_property(custom_property):
 
     @property
     def attrname(self) -> str:
-        """Get name of cached attribute."""
-        return "__cached_" + self.name
+        """Get name of cached attribute.
+
+        Differs between the property of a class and the property of its subclass that overrides it."""
+        return f"__cached_{self.name}_{id(self)}"
 
     def __set_name__(self, owner: tp.Type, name: str) -> None:
         self.name = name
@@ -410,10 +412,7 @@ def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.
                 # Ignores non-hashable instances
                 return func(instance, *args, **kwargs)
 
-            _func = None
-            if hasattr(instance, wrapper.name):
-                _func = getattr(instance, wrapper.name)
-            if not should_cache(wrapper.name, instance, func=_func, **wrapper.flags):
+            if not should_cache(wrapper.name, instance, func=wrapper, **wrapper.flags):
                 return func(instance, *args, **kwargs)
             cache = instance.__dict__
             cached_func = cache.get(wrapper.attrname, _NOT_FOUND)
@@ -450,7 +449,7 @@ def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.
         wrapper.maxsize = maxsize
         wrapper.typed = typed
         wrapper.name = func.__name__
-        wrapper.attrname = "__cached_" + func.__name__
+        wrapper.attrname = f"__cached_{func.__name__}_{id(wrapper)}"
         wrapper.lock = RLock()
         wrapper.clear_cache = clear_cache
 
-- 
2.43.0


From 9cc1fdd5f03c4228e7cd7b5c833cac2e4412dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 30/65] fix: clearing a cached property is safe while threads
 compute it, and instances do not wait for each other

---
 vectorbt/utils/decorators.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/vectorbt/utils/decorators.py b/vectorbt/utils/decorators.py
index 9a37837..5e099c3 100644
--- a/vectorbt/utils/decorators.py
+++ b/vectorbt/utils/decorators.py
@@ -309,11 +309,15 @@ class cached_property(custom_property):
     def __init__(self, func: tp.Callable, **flags) -> None:
         super().__init__(func, **flags)
         self.lock = RLock()
+        self._pending = {}  # lock per instance that is being computed
 
     def clear_cache(self, instance: object) -> None:
-        """Clear the cache for this property belonging to `instance`."""
-        if hasattr(instance, self.attrname):
-            delattr(instance, self.attrname)
+        """Clear the cache for this property belonging to `instance`.
+
+        The result of a computation that is still running won't be cached."""
+        with self.lock:
+            self._pending.pop(id(instance), None)
+            instance.__dict__.pop(self.attrname, None)
 
     @property
     def attrname(self) -> str:
@@ -332,13 +336,26 @@ class cached_property(custom_property):
             return super().__get__(instance, owner=owner)
         cache = instance.__dict__
         val = cache.get(self.attrname, _NOT_FOUND)
-        if val is _NOT_FOUND:
+        while val is _NOT_FOUND:
             with self.lock:
                 # check if another thread filled cache while we awaited lock
                 val = cache.get(self.attrname, _NOT_FOUND)
-                if val is _NOT_FOUND:
+                if val is not _NOT_FOUND:
+                    break
+                pending = self._pending.setdefault(id(instance), RLock())
+            # other instances must not wait for this computation
+            with pending:
+                if self._pending.get(id(instance)) is not pending:
+                    continue  # another thread has finished it, or the cache has been cleared
+                try:
                     val = self.func(instance)
-                    cache[self.attrname] = val
+                    with self.lock:
+                        if self._pending.get(id(instance)) is pending:
+                            cache[self.attrname] = val
+                finally:
+                    with self.lock:
+                        if self._pending.get(id(instance)) is pending:
+                            del self._pending[id(instance)]
         return val
 
     def __call__(self, *args, **kwargs) -> tp.Any: ...
@@ -441,8 +458,7 @@ def cached_method(*args, maxsize: int = 128, typed: bool = True, **flags) -> tp.
 
         def clear_cache(instance):
             """Clear the cache for this method belonging to `instance`."""
-            if hasattr(instance, wrapper.attrname):
-                delattr(instance, wrapper.attrname)
+            instance.__dict__.pop(wrapper.attrname, None)
 
         wrapper.func = func
         wrapper.flags = flags
-- 
2.43.0


From e01a1e74e922eb5459bce6c8ee731055c1656d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 31/65] fix: Config.copy gives the copied reset_dct to the copy
 instead of to the original

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 00665b5..dd1fe0f 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -600,7 +600,7 @@ class Config(PickleableDict, Documented):
 
         reset_dct_copy_kwargs = merge_dicts(self.reset_dct_copy_kwargs_, copy_kwargs, reset_dct_copy_kwargs)
         reset_dct = copy_dict(dict(self.reset_dct_), **reset_dct_copy_kwargs)
-        self.__dict__["_reset_dct_"] = reset_dct
+        self_copy.__dict__["_reset_dct_"] = reset_dct
 
         copy_kwargs = merge_dicts(self.copy_kwargs_, copy_kwargs)
         dct = copy_dict(dict(self), **copy_kwargs)
-- 
2.43.0


From e6fb972078e9949cec3833afeaa9ba3691a54371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 32/65] fix: merge_dicts with same_keys ignores missing keys of
 child dicts and of an empty dict too

---
 vectorbt/utils/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index dd1fe0f..9c81379 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -157,7 +157,7 @@ def update_dict(
 
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
-            update_dict(x[k], v, force=force)
+            update_dict(x[k], v, force=force, same_keys=same_keys)
         else:
             if same_keys and k not in x:
                 continue
@@ -190,7 +190,7 @@ def merge_dicts(
             dicts = tuple([copy_dict(dct, copy_mode=copy_mode, nested=nested) for dct in dicts])
     x, y = dicts[0], dicts[1]
     should_update = True
-    if x.__class__ is dict and y.__class__ is dict and len(x) == 0:
+    if x.__class__ is dict and y.__class__ is dict and len(x) == 0 and not same_keys:
         x = y
         should_update = False
     if isinstance(x, atomic_dict) or isinstance(y, atomic_dict):
-- 
2.43.0


From a0a430268a0f576d509da944071b12530f18e7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 33/65] fix: a rejected update of a config changes nothing, and
 a nested update respects readonly

---
 vectorbt/utils/config.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 9c81379..a61b644 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -88,6 +88,25 @@ def convert_to_dict(dct: InConfigLikeT, nested: bool = True) -> dict:
     return dct
 
 
+def check_dict_update(
+    x: dict,
+    y: dict,
+    nested: bool = True,
+    force: bool = False,
+    same_keys: bool = False,
+) -> None:
+    """Raise the error that updating `x` with `y` would raise, without changing anything.
+
+    See `update_dict`."""
+    if isinstance(x, Config) and not force and x.readonly_ and len(y) > 0:
+        raise TypeError("Config is read-only")
+    for k, v in y.items():
+        if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
+            check_dict_update(x[k], v, nested=nested, force=force, same_keys=same_keys)
+        elif isinstance(x, Config) and not (same_keys and k not in x):
+            x._check_setitem(k, force=force)
+
+
 def set_dict_item(dct: dict, k: tp.Any, v: tp.Any, force: bool = False) -> None:
     """Set dict item.
 
@@ -155,6 +174,9 @@ def update_dict(
     checks.assert_instance_of(x, dict)
     checks.assert_instance_of(y, dict)
 
+    # Either apply all updates or none
+    check_dict_update(x, y, nested=nested, force=force, same_keys=same_keys)
+
     for k, v in y.items():
         if nested and k in x and isinstance(x[k], dict) and isinstance(v, dict) and not isinstance(v, atomic_dict):
             update_dict(x[k], v, force=force, same_keys=same_keys)
@@ -489,12 +511,16 @@ class Config(PickleableDict, Documented):
         if self.as_attrs_:
             self.__setitem__(k, v)
 
-    def __setitem__(self, k: str, v: tp.Any, force: bool = False) -> None:
+    def _check_setitem(self, k: str, force: bool = False) -> None:
+        """Raise an error if the key cannot be set."""
         if not force and self.readonly_:
             raise TypeError("Config is read-only")
         if not force and self.frozen_keys_:
             if k not in self:
                 raise KeyError(f"Config keys are frozen: key '{k}' not found")
+
+    def __setitem__(self, k: str, v: tp.Any, force: bool = False) -> None:
+        self._check_setitem(k, force=force)
         dict.__setitem__(self, k, v)
         if self.as_attrs_:
             self.__dict__[k] = v
-- 
2.43.0


From a633f4c1a2d83af261a0b7dcb5057bfdbb3ad9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 34/65] fix: Config.setdefault and |= respect frozen_keys and
 readonly and keep attributes in sync

---
 vectorbt/utils/config.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index a61b644..6d97035 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -579,6 +579,16 @@ class Config(PickleableDict, Documented):
         dict.clear(self)
         self._clear_attrs(prior_keys)
 
+    def setdefault(self, k: str, v: tp.Any = None, force: bool = False) -> tp.Any:
+        """Return the value of the key and set it first if missing."""
+        if k not in self:
+            self.__setitem__(k, v, force=force)
+        return self[k]
+
+    def __ior__(self: ConfigT, other: tp.Any) -> ConfigT:
+        self.update(other, nested=False)
+        return self
+
     def update(self, *args, nested: tp.Optional[bool] = None, force: bool = False, **kwargs) -> None:
         """Update the config.
 
-- 
2.43.0


From 0c5829c8b85b1623d291fc0ffcceb3bd334dd148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 35/65] fix: setting a key of a config with as_attrs raises
 upon a naming conflict, as the initializer does

---
 vectorbt/utils/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 6d97035..9b9548e 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -518,6 +518,8 @@ class Config(PickleableDict, Documented):
         if not force and self.frozen_keys_:
             if k not in self:
                 raise KeyError(f"Config keys are frozen: key '{k}' not found")
+        if self.as_attrs_ and k not in self and (k in Config.__annotations__ or k in dir(self.__class__)):
+            raise ValueError(f"Cannot set key '{k}' as attribute of the config. Disable as_attrs.")
 
     def __setitem__(self, k: str, v: tp.Any, force: bool = False) -> None:
         self._check_setitem(k, force=force)
-- 
2.43.0


From 485ec2f10a90879ee7ad8ade1076d91804850ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 36/65] fix: is_deep_equal tells a list or dict from a longer
 one

---
 vectorbt/utils/checks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/utils/checks.py b/vectorbt/utils/checks.py
index 055b667..6da3eae 100644
--- a/vectorbt/utils/checks.py
+++ b/vectorbt/utils/checks.py
@@ -323,9 +323,11 @@ def is_deep_equal(arg1: tp.Any, arg2: tp.Any, check_exact: bool = False, **kwarg
                 _check_array(np.testing.assert_allclose)
         else:
             if isinstance(arg1, (tuple, list)):
+                safe_assert(len(arg1) == len(arg2))
                 for i in range(len(arg1)):
                     safe_assert(is_deep_equal(arg1[i], arg2[i], **kwargs))
             elif isinstance(arg1, dict):
+                safe_assert(arg1.keys() == arg2.keys())
                 for k in arg1.keys():
                     safe_assert(is_deep_equal(arg1[k], arg2[k], **kwargs))
             else:
-- 
2.43.0


From 9b186b850f4c590e416a652620027d98d12a073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 37/65] fix: subplots changed on one Records or MappedArray
 instance no longer change the class

---
 vectorbt/records/base.py         | 1 +
 vectorbt/records/mapped_array.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vectorbt/records/base.py b/vectorbt/records/base.py
index 728beaa..e0fbc96 100644
--- a/vectorbt/records/base.py
+++ b/vectorbt/records/base.py
@@ -497,6 +497,7 @@ class Records(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, RecordsWithFields,
     ) -> None:
         Wrapping.__init__(self, wrapper, records_arr=records_arr, col_mapper=col_mapper, engine=engine, **kwargs)
         StatsBuilderMixin.__init__(self)
+        PlotsBuilderMixin.__init__(self)
 
         # Check fields
         records_arr = np.asarray(records_arr)
diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index cb6adef..3d19405 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -453,6 +453,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             **kwargs,
         )
         StatsBuilderMixin.__init__(self)
+        PlotsBuilderMixin.__init__(self)
 
         mapped_arr = np.asarray(mapped_arr)
         col_arr = np.asarray(col_arr)
-- 
2.43.0


From 0fabd669c8bd2d551594f608131b4246b2331ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 38/65] fix: dicts and configs with keys other than strings can
 be loaded

---
 vectorbt/utils/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 9b9548e..78693c5 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -288,7 +288,7 @@ class PickleableDict(Pickleable, dict):
         for k, v in config.items():
             if isinstance(v, DumpTuple):
                 config[k] = v.cls.loads(v.dumps, **kwargs)
-        return cls(**config)
+        return cls(config)
 
     def load_update(self, fname: tp.FileName, **kwargs) -> None:
         """Load dumps from a file and update this instance."""
-- 
2.43.0


From 107f5226abcf6fb67b89bbd46bf0e7c4b1cda0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 39/65] fix: PickleableDict.load_update keeps the contents if
 loading fails

---
 vectorbt/utils/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 78693c5..81a0925 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -292,8 +292,9 @@ class PickleableDict(Pickleable, dict):
 
     def load_update(self, fname: tp.FileName, **kwargs) -> None:
         """Load dumps from a file and update this instance."""
+        loaded = self.load(fname, **kwargs)
         self.clear()
-        self.update(self.load(fname, **kwargs))
+        self.update(loaded)
 
 
 ConfigT = tp.TypeVar("ConfigT", bound="Config")
-- 
2.43.0


From af7968f38b4af58f0f1ddfb48c5e7894ead76219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 40/65] fix: a config inside of a list, tuple, dict or other
 object can be unpickled

---
 vectorbt/utils/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vectorbt/utils/config.py b/vectorbt/utils/config.py
index 81a0925..2f11d86 100644
--- a/vectorbt/utils/config.py
+++ b/vectorbt/utils/config.py
@@ -698,6 +698,10 @@ class Config(PickleableDict, Documented):
             **kwargs,
         )
 
+    def __reduce_ex__(self, protocol: int) -> tp.Tuple[tp.Callable, tuple]:
+        """Pickle and unpickle using `Config.dumps` and `Config.loads`, also if part of another object."""
+        return self.__class__.loads, (self.dumps(),)
+
     @classmethod
     def loads(cls: tp.Type[ConfigT], dumps: bytes, **kwargs) -> ConfigT:
         """Unpickle from bytes."""
-- 
2.43.0


From c25b914b2f18505d7e1eac6635602b3bfb2afccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 41/65] fix: ray_shutdown terminates the Ray runtime also if
 the job fails

---
 vectorbt/base/combine_fns.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/vectorbt/base/combine_fns.py b/vectorbt/base/combine_fns.py
index 4384a41..12f6104 100644
--- a/vectorbt/base/combine_fns.py
+++ b/vectorbt/base/combine_fns.py
@@ -252,17 +252,19 @@ def ray_apply(
         apply_func = ray.remote(**ray_func_kwargs)(apply_func)
     else:
         apply_func = ray.remote(apply_func)
-    # args and kwargs don't change -> put to object store
-    arg_refs = ()
-    for v in args:
-        arg_refs += (ray.put(v),)
-    kwarg_refs = {}
-    for k, v in kwargs.items():
-        kwarg_refs[k] = ray.put(v)
-    futures = [apply_func.remote(i, *arg_refs, **kwarg_refs) for i in range(n)]
-    results = ray.get(futures)
-    if ray_shutdown:
-        ray.shutdown()
+    try:
+        # args and kwargs don't change -> put to object store
+        arg_refs = ()
+        for v in args:
+            arg_refs += (ray.put(v),)
+        kwarg_refs = {}
+        for k, v in kwargs.items():
+            kwarg_refs[k] = ray.put(v)
+        futures = [apply_func.remote(i, *arg_refs, **kwarg_refs) for i in range(n)]
+        results = ray.get(futures)
+    finally:
+        if ray_shutdown:
+            ray.shutdown()
     return results
 
 
-- 
2.43.0


From 6c26d2c0ce3afb2e81a391b2a0b9d408f2df3b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 42/65] fix: cache_func of an indicator doesn't receive the
 arguments of ray_apply

---
 vectorbt/indicators/factory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 34b4d94..65214fa 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1182,7 +1182,7 @@ from vectorbt.generic.accessors import BaseAccessor
 from vectorbt.generic.plots_builder import PlotsBuilderMixin
 from vectorbt.generic.stats_builder import StatsBuilderMixin
 from vectorbt.utils import checks
-from vectorbt.utils.config import merge_dicts, resolve_dict, Config, Default
+from vectorbt.utils.config import merge_dicts, resolve_dict, get_func_kwargs, Config, Default
 from vectorbt.utils.decorators import classproperty, cached_property
 from vectorbt.utils.docs import to_doc
 from vectorbt.utils.enum_ import map_enum_fields
@@ -3368,6 +3368,11 @@ Other keyword arguments are passed to `{0}.run`.""".format(
                         _in_output_list = [to_typed_list(in_outputs) for in_outputs in in_output_list]
                     if len(param_list) > 0:
                         _param_list = [to_typed_list(params) for params in param_list]
+                cache_kwargs = _kwargs
+                if use_ray:
+                    # Arguments of combine_fns.ray_apply aren't meant for cache_func
+                    ray_arg_names = get_func_kwargs(combine_fns.ray_apply)
+                    cache_kwargs = {k: v for k, v in _kwargs.items() if k not in ray_arg_names}
                 cache = cache_func(
                     *args_before,
                     *input_tuple,
@@ -3375,7 +3380,7 @@ Other keyword arguments are passed to `{0}.run`.""".format(
                     *_param_list,
                     *args,
                     *more_args,
-                    **_kwargs,
+                    **cache_kwargs,
                 )
             if return_cache:
                 return cache
-- 
2.43.0


From c8a8e156d13c4820ee16f0a3e676923bd642a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 43/65] fix: np.datetime64 lost its time of day (or raised) in
 to_tzaware_datetime

---
 vectorbt/utils/datetime_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/datetime_.py b/vectorbt/utils/datetime_.py
index 587c1e9..6745b5c 100644
--- a/vectorbt/utils/datetime_.py
+++ b/vectorbt/utils/datetime_.py
@@ -140,7 +140,7 @@ def to_tzaware_datetime(
     elif isinstance(dt_like, pd.Timestamp):
         dt = dt_like.to_pydatetime()
     elif isinstance(dt_like, np.datetime64):
-        dt = datetime.combine(dt_like.astype(datetime), time())
+        dt = pd.Timestamp(dt_like).to_pydatetime()
     else:
         dt = dt_like
 
-- 
2.43.0


From dbb99334ceaafdb62859fd435dc926ec58aff158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 44/65] fix: AlpacaData was indexed by symbol and timestamp, so
 symbols never aligned and updating failed; a range without bars raised
 KeyError

---
 vectorbt/data/custom.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vectorbt/data/custom.py b/vectorbt/data/custom.py
index d24f8b6..c0a8a66 100644
--- a/vectorbt/data/custom.py
+++ b/vectorbt/data/custom.py
@@ -909,6 +909,16 @@ class AlpacaData(Data):
                 )
             ).df
 
+        if df.empty:
+            # no bars in this range
+            df = pd.DataFrame(
+                columns=["open", "high", "low", "close", "volume"],
+                index=pd.DatetimeIndex([], tz=get_utc_tz(), name="timestamp"),
+            )
+        elif isinstance(df.index, pd.MultiIndex):
+            # one symbol per request
+            df = df.droplevel("symbol")
+
         # filter for OHLCV
         # remove extra columns
         df.drop(["trade_count", "vwap"], axis=1, errors="ignore", inplace=True)
-- 
2.43.0


From abeca51f2c80650ed58a4f29ecb9af264217bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 45/65] fix: an index without a fixed frequency (weeks, months,
 business days) raised or counted as milliseconds

---
 vectorbt/base/array_wrapper.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 4d73dcd..02f5071 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -445,10 +445,15 @@ class ArrayWrapper(Configured, PandasIndexer):
         if freq is not None:
             return freq_to_timedelta(freq)
         if isinstance(self.index, DatetimeIndexes):
-            if self.index.freq is not None:
-                return freq_to_timedelta(self.index.freq)
-            if self.index.inferred_freq is not None:
-                return freq_to_timedelta(self.index.inferred_freq)
+            index_freq = self.index.freq
+            if index_freq is None:
+                index_freq = self.index.inferred_freq
+            if index_freq is not None:
+                try:
+                    return freq_to_timedelta(pd.tseries.frequencies.to_offset(index_freq))
+                except ValueError:
+                    # Weeks, months, business days, etc. have no fixed duration
+                    return None
         return freq
 
     def to_timedelta(
-- 
2.43.0


From 22bd6f1893f8f0abcbfb9d32f0bacd44ca741fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 46/65] fix: durations were cut to whole seconds if the
 frequency is a unit such as 's' or 'D'

---
 vectorbt/base/array_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/array_wrapper.py b/vectorbt/base/array_wrapper.py
index 02f5071..e6b1afc 100644
--- a/vectorbt/base/array_wrapper.py
+++ b/vectorbt/base/array_wrapper.py
@@ -483,7 +483,7 @@ class ArrayWrapper(Configured, PandasIndexer):
             if isinstance(out, pd.DataFrame):
                 return out.apply(lambda col: pd.to_timedelta(col, unit="ns"))
             return pd.to_timedelta(out, unit="ns")
-        return a * self.freq
+        return a * self.freq.as_unit("ns")
 
     @property
     def column_only_select(self) -> tp.Optional[bool]:
-- 
2.43.0


From cb58596320189369852d16442e9e5a40dbf7f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 47/65] fix: stats metrics reused the returns of each other if
 use_asset_returns is set for one of them

---
 vectorbt/utils/attr_.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index 320c375..dbc6958 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -177,19 +177,19 @@ class AttrResolver:
                         custom_k = True
                     attr_func_kwargs[k] = v
                     passed_kwargs_out[k] = v
-            if use_caching and not custom_k and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and not custom_k and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = attr_func(*args, **attr_func_kwargs)
                 if use_caching and not custom_k:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         else:
-            if use_caching and attr in cache_dct:
-                out = cache_dct[attr]
+            if use_caching and _attr in cache_dct:
+                out = cache_dct[_attr]
             else:
                 out = getattr(self, _attr)
                 if use_caching:
-                    cache_dct[attr] = out
+                    cache_dct[_attr] = out
         out = self.post_resolve_attr(attr, out, final_kwargs=final_kwargs)
         return out
 
-- 
2.43.0


From 78456157050313e6c5606d71f973fa8dc060fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 48/65] fix: MappedArray.describe raised if records share a
 bar, and ignored group_by=False

With pandas 3, values were expanded by index first: values of the same
bar couldn't be described, and group_by didn't reach the expansion.
---
 vectorbt/records/mapped_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 3d19405..99df112 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -980,7 +980,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             and wrap_kwargs is None
             and ddof == 1
         ):
-            return self.to_pd().describe(percentiles=percentiles)
+            return self.to_pd(ignore_index=True, group_by=group_by).describe(percentiles=percentiles)
         if percentiles is not None:
             percentiles = to_1d_array(percentiles)
         else:
-- 
2.43.0


From d300b788fa71c0f9fd6dd18a7fddff32d0dce194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 49/65] fix: the mapping "columns" of a mapped array referred
 to other columns after indexing

The values are positions of the columns the array was mapped from, but the
mapping was resolved anew with the selected columns: wrong or missing labels.
---
 vectorbt/records/mapped_array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vectorbt/records/mapped_array.py b/vectorbt/records/mapped_array.py
index 99df112..32b671d 100644
--- a/vectorbt/records/mapped_array.py
+++ b/vectorbt/records/mapped_array.py
@@ -529,6 +529,7 @@ class MappedArray(Wrapping, StatsBuilderMixin, PlotsBuilderMixin, metaclass=Meta
             col_arr=new_col_arr,
             id_arr=new_id_arr,
             idx_arr=new_idx_arr,
+            mapping=self.mapping,  # "columns" refers to the columns before indexing
         )
 
     @property
-- 
2.43.0


From 86b34e55855cf50d440011fabb1bfa5a51f4e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 50/65] fix: a metric or subplot that passes arguments in its
 path shared the cached result of the same attribute with others

---
 vectorbt/utils/attr_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/utils/attr_.py b/vectorbt/utils/attr_.py
index dbc6958..23acff8 100644
--- a/vectorbt/utils/attr_.py
+++ b/vectorbt/utils/attr_.py
@@ -170,7 +170,7 @@ class AttrResolver:
             attr_func = getattr(self, _attr)
             attr_func_kwargs = dict()
             attr_func_arg_names = get_func_arg_names(attr_func)
-            custom_k = False
+            custom_k = len(args) > 0 or len(kwargs) > 0  # arguments of the path are not part of the key
             for k, v in final_kwargs.items():
                 if k in attr_func_arg_names or k in kwargs:
                     if k in custom_arg_names:
-- 
2.43.0


From d2af3147c6270c40b39e7853b001657be4f5645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 51/65] fix: run_combs added hidden default parameters to the
 list passed by the user or stored in the class

---
 vectorbt/indicators/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 65214fa..6b1e915 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3029,6 +3029,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
 
                 if _hide_params is None:
                     _hide_params = []
+                else:
+                    _hide_params = list(_hide_params)  # do not modify the list of the user or class
                 if _short_names is None:
                     _short_names = [f"{short_name}_{str(i + 1)}" for i in range(_r)]
 
-- 
2.43.0


From 3d17ea5b6c813be04775e60d3f011059a5df2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 52/65] fix: run_combs with hide_default=False passed default
 parameters to the function wrapped in Default

---
 vectorbt/indicators/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 6b1e915..afb5458 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3041,8 +3041,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
 
                 # Hide params
                 for i, pname in enumerate(param_names):
-                    if _hide_default and isinstance(param_list[i], Default):
-                        if pname not in _hide_params:
+                    if isinstance(param_list[i], Default):
+                        if _hide_default and pname not in _hide_params:
                             _hide_params.append(pname)
                         param_list[i] = param_list[i].value
                 checks.assert_len_equal(param_list, param_names)
-- 
2.43.0


From 4071a64a13ca794d9533b4d056d14ec3f480b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 53/65] fix: run_combs took the values of a tuple parameter for
 a single value

---
 vectorbt/indicators/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index afb5458..33512f8 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -3083,7 +3083,7 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     instances.append(
                         cls._run(
                             *input_list,
-                            *zip(*param_list),
+                            *map(list, zip(*param_list)),
                             *in_output_list,
                             *args,
                             short_name=_short_names[i],
-- 
2.43.0


From 3c97da54ddcc76b270331d30460cdc90713c4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 54/65] fix: raw outputs computed per column were assigned to
 columns by parameters only

---
 vectorbt/indicators/factory.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 33512f8..426a087 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1764,6 +1764,11 @@ def run_pipeline(
     def _use_raw(_raw):
         # Use raw results of previous run to build outputs
         _output_list, _param_map, _n_input_cols, _other_list = _raw
+        if per_column:
+            # Each column has been run on its own parameters
+            if _n_input_cols != 1 or _param_map != list(zip(*param_list)):
+                raise ValueError("Raw results must have the same parameters in each column when per_column=True")
+            return _raw
         idxs = np.array([_param_map.index(param_tuple) for param_tuple in zip(*param_list)])
         _output_list = [
             np.hstack([o[:, idx * _n_input_cols : (idx + 1) * _n_input_cols] for idx in idxs]) for o in _output_list
@@ -3061,7 +3066,8 @@ Other keyword arguments are passed to `vectorbt.indicators.factory.run_pipeline`
                     param_list = [param_list]
 
                 # Speed up by pre-calculating raw outputs
-                if _run_unique:
+                # Not per column, since a column holds the output of its own parameters only
+                if _run_unique and not kwargs.get("per_column", pipeline_kwargs.get("per_column", False)):
                     raw_results = cls._run(
                         *input_list,
                         *param_list,
-- 
2.43.0


From 580e850fcf304201a27bf5e62145f5c60be890f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 55/65] fix: raw outputs could not be reused with array
 parameters or without parameters

---
 vectorbt/indicators/factory.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 426a087..cd92086 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1761,15 +1761,44 @@ def run_pipeline(
         # Numba can't stand untyped lists
         in_output_list_ready = [to_typed_list(in_outputs) for in_outputs in in_output_list_ready]
 
+    def _is_same_params(param_tuple1, param_tuple2):
+        # Arrays cannot be compared with a single operator
+        return all(
+            p1 is p2
+            or (np.array_equal(p1, p2) if isinstance(p1, np.ndarray) or isinstance(p2, np.ndarray) else p1 == p2)
+            for p1, p2 in zip(param_tuple1, param_tuple2)
+        )
+
+    def _find_params(_param_map, param_tuple):
+        for idx, _param_tuple in enumerate(_param_map):
+            if _is_same_params(_param_tuple, param_tuple):
+                return idx
+        raise ValueError(f"Parameters {param_tuple} cannot be found in raw results")
+
     def _use_raw(_raw):
         # Use raw results of previous run to build outputs
         _output_list, _param_map, _n_input_cols, _other_list = _raw
+        if len(param_list) == 0:
+            # Nothing to select from
+            return _raw
         if per_column:
             # Each column has been run on its own parameters
-            if _n_input_cols != 1 or _param_map != list(zip(*param_list)):
+            param_tuples = list(zip(*param_list))
+            if (
+                _n_input_cols != 1
+                or len(_param_map) != len(param_tuples)
+                or not all(map(_is_same_params, _param_map, param_tuples))
+            ):
                 raise ValueError("Raw results must have the same parameters in each column when per_column=True")
             return _raw
-        idxs = np.array([_param_map.index(param_tuple) for param_tuple in zip(*param_list)])
+        try:
+            first_idxs = {}
+            for idx, param_tuple in enumerate(_param_map):
+                first_idxs.setdefault(param_tuple, idx)
+            idxs = [first_idxs[param_tuple] for param_tuple in zip(*param_list)]
+        except (TypeError, KeyError):
+            # Not hashable or cannot be found by hash
+            idxs = [_find_params(_param_map, param_tuple) for param_tuple in zip(*param_list)]
         _output_list = [
             np.hstack([o[:, idx * _n_input_cols : (idx + 1) * _n_input_cols] for idx in idxs]) for o in _output_list
         ]
-- 
2.43.0


From 44fd86c237ea5dc009032f6d15daeea1219e4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 56/65] fix: in-place outputs passed by the user were mixed up
 when some of them were not passed

---
 vectorbt/indicators/factory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index cd92086..1fbc5d5 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1599,6 +1599,7 @@ def run_pipeline(
     if keep_pd and checks.is_engine_compatible_func(custom_func, engine="auto"):
         raise ValueError("Cannot pass pandas objects to an engine-compatible custom_func. Set keep_pd to False.")
 
+    n_in_outputs = len(in_output_list)
     in_output_idxs = [i for i, x in enumerate(in_output_list) if x is not None]
     if len(in_output_idxs) > 0:
         # In-place outputs should broadcast together with inputs
@@ -1629,7 +1630,9 @@ def run_pipeline(
         input_list = list(map(np.asarray, bc_input_list))
     if len(in_output_idxs) > 0:
         # Separate inputs and in-place outputs
-        in_output_list = input_list[-len(in_output_idxs) :]
+        in_output_list = [None] * n_in_outputs
+        for i, in_output in zip(in_output_idxs, input_list[-len(in_output_idxs) :]):
+            in_output_list[i] = in_output
         input_list = input_list[: -len(in_output_idxs)]
 
     # Reshape input shape
@@ -1726,17 +1729,15 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
-    j = 0
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[j], requirements="W")
+            in_output_wide = np.require(in_output_list[i], requirements="W")
             if not per_column:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
-            j += 1
         else:
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
-- 
2.43.0


From 48d06d8340b0a9a0f23101d993694408c5294468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 57/65] fix: in-place outputs did not work per column when
 passed as a series or without parameters

---
 vectorbt/indicators/factory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 1fbc5d5..39fcc49 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1729,12 +1729,14 @@ def run_pipeline(
 
     # Prepare in-place outputs
     in_output_list_ready = []
+    # One per column or parameter combination
+    n_chunks = orig_input_shape_2d[1] if per_column else n_unique_param_values
     for i in range(len(in_output_list)):
         if input_shape_2d is None:
             raise ValueError("input_shape is required when using in-place outputs")
         if i in in_output_idxs:
             # This in-place output has been already broadcast with inputs
-            in_output_wide = np.require(in_output_list[i], requirements="W")
+            in_output_wide = reshape_fns.to_2d(np.require(in_output_list[i], requirements="W"))
             if not per_column:
                 # One per parameter combination
                 in_output_wide = reshape_fns.tile(in_output_wide, n_unique_param_values, axis=1)
@@ -1742,12 +1744,12 @@ def run_pipeline(
             # This in-place output hasn't been provided, so create empty
             _in_output_settings = in_output_settings if isinstance(in_output_settings, dict) else in_output_settings[i]
             dtype = _in_output_settings.get("dtype", None)
-            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_unique_param_values)
+            in_output_shape = (input_shape_2d[0], input_shape_2d[1] * n_chunks)
             in_output_wide = np.empty(in_output_shape, dtype=dtype)
         in_output_list[i] = in_output_wide
         in_outputs = []
         # Split each in-place output into chunks, each of input shape, and append to a list
-        for i in range(n_unique_param_values):
+        for i in range(n_chunks):
             in_output = in_output_wide[:, i * input_shape_2d[1] : (i + 1) * input_shape_2d[1]]
             if len(input_shape_ready) == 1:
                 in_output = in_output[:, 0]
-- 
2.43.0


From d878db3ad1fe693c5f31f2085db666c3010fad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 58/65] fix: what a function wrote into in-place outputs was
 lost with keep_pd=True

---
 vectorbt/indicators/factory.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 39fcc49..83e1d9e 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1910,6 +1910,13 @@ def run_pipeline(
                 **func_kwargs,
             )
 
+        if keep_pd:
+            # Pandas objects can hold copies of the in-place outputs
+            for in_output_wide, in_outputs in zip(in_output_list, in_output_list_ready):
+                for i, in_output in enumerate(in_outputs):
+                    start_col, end_col = i * input_shape_2d[1], (i + 1) * input_shape_2d[1]
+                    in_output_wide[:, start_col:end_col] = reshape_fns.to_2d_array(in_output)
+
         # Return cache
         if kwargs.get("return_cache", False):
             if use_run_unique and not silence_warnings:
-- 
2.43.0


From 1f363765843874400929f3fcae297ea7f1cdc087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 59/65] fix: an indicator could not be run on multiple
 parameter combinations with all parameters hidden

---
 vectorbt/indicators/factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 83e1d9e..26d2cdc 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -1317,10 +1317,11 @@ def build_columns(
         param_indexes.append(param_index)
         if i not in hide_levels:
             shown_param_indexes.append(param_index)
-    if len(shown_param_indexes) > 0:
-        if not per_column:
-            n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
+    if not per_column:
+        n_param_values = len(param_list[0]) if len(param_list) > 0 else 1
+        if n_param_values > 1 or len(shown_param_indexes) > 0:
             input_columns = index_fns.tile_index(input_columns, n_param_values, ignore_default=ignore_default)
+    if len(shown_param_indexes) > 0:
         stacked_columns = index_fns.stack_indexes([*shown_param_indexes, input_columns], **kwargs)
         return param_indexes, stacked_columns
     return param_indexes, input_columns
-- 
2.43.0


From 2694cddb76ddbf2fb4ada5b4ae31b492601e660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 60/65] fix: selecting by a hidden parameter or by all column
 levels failed

---
 vectorbt/base/indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index ca08cfc..5e40e82 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -221,7 +221,7 @@ class ParamLoc(LocBase):
                 if self.level_name is not None:
                     if checks.is_frame(new_obj):
                         if isinstance(new_obj.columns, pd.MultiIndex):
-                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name)
+                            new_obj.columns = index_fns.drop_levels(new_obj.columns, self.level_name, strict=False)
             return new_obj
 
         return self.indexing_func(pd_indexing_func, **self.indexing_kwargs)
-- 
2.43.0


From a984dd4a60b9943d2928ccd9e878eb695a4bfc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 61/65] fix: selecting by a boolean parameter took the key for
 a mask

---
 vectorbt/base/indexing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vectorbt/base/indexing.py b/vectorbt/base/indexing.py
index 5e40e82..90062eb 100644
--- a/vectorbt/base/indexing.py
+++ b/vectorbt/base/indexing.py
@@ -10,7 +10,7 @@ one can manipulate complex classes with dozens of pandas objects using a single
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_object_dtype, is_string_dtype
+from pandas.api.types import is_bool_dtype, is_object_dtype, is_string_dtype
 
 from vectorbt import _typing as tp
 from vectorbt.base import index_fns, reshape_fns
@@ -166,8 +166,9 @@ class ParamLoc(LocBase):
     def __init__(self, mapper: tp.Series, indexing_func: tp.Callable, level_name: tp.Level = None, **kwargs) -> None:
         checks.assert_instance_of(mapper, pd.Series)
 
-        if is_object_dtype(mapper.dtype):
+        if is_object_dtype(mapper.dtype) or is_bool_dtype(mapper.dtype):
             # If params are objects, we must cast them to string first
+            # The same for booleans, otherwise pandas would take them for a mask
             # The original mapper isn't touched
             # Normalize numpy scalars to Python scalars for consistent string representation
             mapper = mapper.apply(_normalize_numpy_scalars).astype(str)
-- 
2.43.0


From 4766882cd9435fcd4af3e258f69e39766c8a2982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 62/65] fix: inputs of an indicator without parameters did not
 follow the selected columns

---
 vectorbt/indicators/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/indicators/factory.py b/vectorbt/indicators/factory.py
index 26d2cdc..62ca837 100644
--- a/vectorbt/indicators/factory.py
+++ b/vectorbt/indicators/factory.py
@@ -2037,7 +2037,7 @@ def run_pipeline(
     else:
         # Some indicators don't have any params
         new_columns = input_columns
-        input_mapper = None
+        input_mapper = np.arange(len(input_columns)) if len(input_list) > 0 else None
         mapper_list = []
 
     # Return artifacts: no pandas objects, just a wrapper and NumPy arrays
-- 
2.43.0


From 4e0061b1ce58a2a6c88b55ceb8a160025f4361a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 63/65] fix: rolling mean with minp=0 divided by zero where a
 window holds no value

---
 vectorbt/generic/nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index cfe2feb..b638878 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -741,7 +741,7 @@ def rolling_mean_1d_nb(a: tp.Array1d, window: int, minp: tp.Optional[int] = None
         else:
             window_len = window - (nancnt - nancnt_arr[i - window])
             window_cumsum = cumsum - cumsum_arr[i - window]
-        if window_len < minp:
+        if window_len < minp or window_len == 0:
             out[i] = np.nan
         else:
             out[i] = window_cumsum / window_len
-- 
2.43.0


From 6bf89a51358141be47bac51b18716ac0e12c40d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 64/65] fix: expanding mean and deviation refused minp above
 the length instead of giving nothing

---
 vectorbt/generic/nb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index b638878..6d31aa8 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1077,13 +1077,13 @@ def expanding_mean_1d_nb(a: tp.Array1d, minp: int = 1) -> tp.Array1d:
     """Return expanding mean.
 
     Numba equivalent to `pd.Series(a).expanding(min_periods=minp).mean()`."""
-    return rolling_mean_1d_nb(a, a.shape[0], minp=minp)
+    return rolling_mean_1d_nb(a, max(a.shape[0], minp), minp=minp)
 
 
 @njit(cache=True)
 def expanding_mean_nb(a: tp.Array2d, minp: int = 1) -> tp.Array2d:
     """2-dim version of `expanding_mean_1d_nb`."""
-    return rolling_mean_nb(a, a.shape[0], minp=minp)
+    return rolling_mean_nb(a, max(a.shape[0], minp), minp=minp)
 
 
 @njit(cache=True)
@@ -1091,13 +1091,13 @@ def expanding_std_1d_nb(a: tp.Array1d, minp: int = 1, ddof: int = 0) -> tp.Array
     """Return expanding standard deviation.
 
     Numba equivalent to `pd.Series(a).expanding(min_periods=minp).std(ddof=ddof)`."""
-    return rolling_std_1d_nb(a, a.shape[0], minp=minp, ddof=ddof)
+    return rolling_std_1d_nb(a, max(a.shape[0], minp), minp=minp, ddof=ddof)
 
 
 @njit(cache=True)
 def expanding_std_nb(a: tp.Array2d, minp: int = 1, ddof: int = 0) -> tp.Array2d:
     """2-dim version of `expanding_std_1d_nb`."""
-    return rolling_std_nb(a, a.shape[0], minp=minp, ddof=ddof)
+    return rolling_std_nb(a, max(a.shape[0], minp), minp=minp, ddof=ddof)
 
 
 # ############# Apply functions ############# #
-- 
2.43.0


From 946e05f945602c44a4662fa408ce33cc56625956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 65/65] fix: a drawdown still running at a missing last value
 was lost

---
 rust/src/generic.rs    | 18 ++++++++++++++++--
 vectorbt/generic/nb.py |  7 +++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/rust/src/generic.rs b/rust/src/generic.rs
index d79823b..7534fa8 100644
--- a/rust/src/generic.rs
+++ b/rust/src/generic.rs
@@ -1936,8 +1936,15 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
             let mut valley_idx = -1i64;
             let mut peak_val = unsafe { *src.get_unchecked(col) };
             let mut valley_val = peak_val;
+            let mut last_val = peak_val;
             for i in 0..nrows {
-                let cur_val = unsafe { *src.get_unchecked(i * ncols + col) };
+                let mut cur_val = unsafe { *src.get_unchecked(i * ncols + col) };
+                if !cur_val.is_nan() {
+                    last_val = cur_val;
+                } else if i == nrows - 1 && drawdown_started {
+                    // The last value is missing: a drawdown still running ends with the last known value
+                    cur_val = last_val;
+                }
                 if !cur_val.is_nan() {
                     if peak_val.is_nan() || cur_val >= peak_val {
                         if !drawdown_started {
@@ -1998,10 +2005,17 @@ pub(crate) fn get_drawdowns(a: ArrayView2<'_, f64>) -> Vec<DrawdownRecord> {
         let mut valley_idx = -1i64;
         let mut peak_val = col_view[0];
         let mut valley_val = col_view[0];
+        let mut last_val = col_view[0];
         let mut store_record = false;
         let mut status = -1i64;
         for i in 0..nrows {
-            let cur_val = col_view[i];
+            let mut cur_val = col_view[i];
+            if !cur_val.is_nan() {
+                last_val = cur_val;
+            } else if i == nrows - 1 && drawdown_started {
+                // The last value is missing: a drawdown still running ends with the last known value
+                cur_val = last_val;
+            }
             if !cur_val.is_nan() {
                 if peak_val.is_nan() || cur_val >= peak_val {
                     if !drawdown_started {
diff --git a/vectorbt/generic/nb.py b/vectorbt/generic/nb.py
index 6d31aa8..abbeabc 100644
--- a/vectorbt/generic/nb.py
+++ b/vectorbt/generic/nb.py
@@ -1854,12 +1854,19 @@ def get_drawdowns_nb(ts: tp.Array2d) -> tp.RecordArray:
         valley_idx = -1
         peak_val = ts[0, col]
         valley_val = ts[0, col]
+        last_val = ts[0, col]
         store_record = False
         status = -1
 
         for i in range(ts.shape[0]):
             cur_val = ts[i, col]
 
+            if not np.isnan(cur_val):
+                last_val = cur_val
+            elif i == ts.shape[0] - 1 and drawdown_started:
+                # The last value is missing: a drawdown still running ends with the last known value
+                cur_val = last_val
+
             if not np.isnan(cur_val):
                 if np.isnan(peak_val) or cur_val >= peak_val:
                     # Value increased
-- 
2.43.0

