From 5c632a68242d520547501aafe73d56c466597fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 01/70] fix: http connections are reused only after a
 completely consumed response

A connection whose response was not read to its end (error statuses, aborted or failed
reads, timeouts) went back to the pool and failed or desynchronised unrelated requests;
a stale connection was retried with the next stale one; a reset inside the caller's block
restarted the request generator; truncated bodies read in chunks passed as complete;
redirects to an absolute path kept the previous query string.
---
 pkm/src/pkm/utils/http/http_client.py | 51 ++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..2a803ae 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -9,12 +9,12 @@ from dataclasses import dataclass, replace
 from datetime import datetime
 from datetime import timezone
 from gzip import GzipFile
-from http.client import HTTPSConnection, HTTPConnection, HTTPResponse
+from http.client import HTTPSConnection, HTTPConnection, HTTPResponse, HTTPException
 from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
-from urllib.parse import urlsplit
+from urllib.parse import urlsplit, urljoin
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -114,6 +114,11 @@ class _ConnectionProxy(Closeable):
             self._owner._release(self._conn)
             self._conn = None
 
+    def disconnect(self):
+        """drops the underlying network connection (the next request on this connection will reconnect)"""
+        if self._conn is not None:
+            self._conn.close()
+
 
 class _Connections(Closeable):
     def __init__(self, ctype: Type[HTTPConnection], host: str, port: int, cached_amount: int):
@@ -283,6 +288,12 @@ class _GzipResponseWrapper:
         return getattr(self._response, item)
 
 
+def _assert_not_truncated(response: HTTPResponse):
+    # when reading in chunks, HTTPResponse signals a lost connection as if it was the end of the content
+    if response.isclosed() and response.length:
+        raise HttpException(f"connection lost, {response.length} bytes are missing from the response", response)
+
+
 def _add_standard_headers(headers: Dict[str, str]):
     headers['user-agent'] = f'pkm'
     headers['accept-encoding'] = 'gzip'
@@ -330,31 +341,45 @@ class HttpClient:
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
             with self._pool.connection_for(url) as conn:
+                exchange_completed = False
                 try:
-                    # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
-                    conn.request(mtd, url.resource_part(), headers=headers, body=payload)
-                    with conn.getresponse() as response:
+                    try:
+                        if num_connection_retries:
+                            conn.disconnect()  # retry using a fresh connection
+                        # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
+                        conn.request(mtd, url.resource_part(), headers=headers, body=payload)
+                        response = conn.getresponse()
+                    except ConnectionError:
+                        num_connection_retries += 1
+                        continue
+
+                    with response:
                         if response.status in (301, 302, 303, 307, 308):
                             num_redirects_performed += 1
                             num_connection_retries = 0
                             if not (new_location := response.headers.get("Location")):
                                 raise HttpException(
                                     "server responded with redirect but without supplying a new location")
-                            if new_location.startswith("/"):
-                                url = replace(url, path=new_location)
-                            else:
-                                url = Url.parse(new_location)
-                            response.read()
+                            url = Url.parse(urljoin(str(url), new_location))
+                            try:
+                                response.read()
+                                exchange_completed = True
+                            except (ConnectionError, HTTPException):
+                                pass  # the content of a redirect response is of no interest
                         else:
                             if response.headers.get('Content-Encoding') == 'gzip':
                                 yield cast(HTTPResponse, _GzipResponseWrapper(response))
                             else:
                                 yield response
+                            _assert_not_truncated(response)
+                            exchange_completed = response.isclosed() or response.length == 0
                             return
-                except ConnectionError:
-                    num_connection_retries += 1
+                finally:
+                    if not exchange_completed:
+                        # the response was not (fully) consumed, the connection cannot serve another request
+                        conn.disconnect()
 
-        error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
+        error = "max redirects reached" if num_redirects_performed > max_redirects else "connection failed"
         raise HttpException(error)
 
     @contextmanager
-- 
2.43.0


From 5b2c240c09cb8fd2da8091a401b395f4235c5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 02/70] fix: configuration files are replaced atomically when
 saved

An interruption or a full disk while saving left a truncated configuration (lock, records,
fetch information, ...) in place of the previous one.
---
 pkm/src/pkm/config/configfiles.py | 15 ++++++++++-----
 pkm/src/pkm/utils/files.py        | 28 +++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 7682f8d..29b8453 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -8,6 +8,7 @@ from typing import Mapping, Type, Any
 
 from pkm.config import toml
 from pkm.config.configclass import ConfigIO, _RAW_CONFIG_T, ConfigCodec, ConfigFieldCodec, _T, StringableFieldCodec
+from pkm.utils.files import open_for_replace
 
 
 class TomlConfigIO(ConfigIO):
@@ -16,7 +17,9 @@ class TomlConfigIO(ConfigIO):
         if path.exists():
             _, dumps = toml.load(path)
 
-        path.write_text(dumps(data))
+        content = dumps(data)
+        with open_for_replace(path) as fd:
+            fd.write(content)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data, _ = toml.load(path)
@@ -26,7 +29,7 @@ class TomlConfigIO(ConfigIO):
 class JsonConfigIO(ConfigIO):
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        with path.open("w") as fd:
+        with open_for_replace(path) as fd:
             json.dump(data, fd)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
@@ -50,7 +53,7 @@ class INIConfigIO(ConfigIO):
             else:
                 cp.set("", key_or_section, value_or_content)
 
-        with path.open("w") as out:
+        with open_for_replace(path) as out:
             cp.write(out)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
@@ -84,7 +87,9 @@ class WheelFileConfigIO(ConfigIO):
         super().__init__(codec=(codec or ConfigCodec()).extended({bool: _WheelBoolFieldCodec}))
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        path.write_text(os.linesep.join(f'{k}: {v}' for k, v in data.items()))
+        content = os.linesep.join(f'{k}: {v}' for k, v in data.items())
+        with open_for_replace(path) as fd:
+            fd.write(content)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         seperator_rx = re.compile("\\s*:\\s*")
@@ -101,7 +106,7 @@ class CSVConfigIO(ConfigIO):
         self._headers = headers
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        with path.open('w+', newline='') as new_record_fd:
+        with open_for_replace(path, newline='') as new_record_fd:
             for record in data['records']:
                 csv.writer(new_record_fd).writerow(record[c] for c in self._headers)
 
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..1a01a49 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -5,7 +5,8 @@ import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set
+from typing import Optional, Callable, ContextManager, IO, Iterator, List, Set
+from uuid import uuid4
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -41,6 +42,31 @@ def mkdir(path: Path) -> Path:
     return path
 
 
+@contextmanager
+def open_for_replace(path: Path, mode: str = 'w', **kwargs) -> ContextManager[IO]:
+    """
+    context manager for (re)writing a file such that at any point in time - also if the process is interrupted or
+    the write fails - `path` contains either its previous content (or still does not exist) or the complete new content
+    :param path: the path to write to
+    :param mode: the mode to open the file with
+    :param kwargs: additional arguments to pass to `open`
+    :return: the file object to write the new content into
+    """
+    if path.is_symlink():
+        path = path.resolve()
+
+    new_path = path.with_name(f".{uuid4().hex}.new")
+    try:
+        with new_path.open(mode, **kwargs) as fd:
+            yield fd
+        if path.exists():
+            shutil.copymode(path, new_path)
+        os.replace(new_path, path)
+    except BaseException:
+        new_path.unlink(missing_ok=True)
+        raise
+
+
 def path_to(source: Path, destination: Path) -> Path:
     """
     creates a relative path from `source` to `destination`, allowing back stepping ('..')
-- 
2.43.0


From a1052b5f7f5548c01c658b858e7c290b760ec8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 03/70] fix: downloaded resources are stored completely or not
 at all

A body cut by a lost connection was cached forever as complete, an update in progress was
visible to readers of the previous copy, a failed update dropped it, and an interruption could
pair the content of one response with the fetch information of another.
---
 pkm/src/pkm/utils/http/http_client.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 2a803ae..9f36e30 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -1,6 +1,7 @@
 import email.utils as eu
 import hashlib
 import json
+import os
 import shutil
 import socket
 from collections import deque
@@ -15,6 +16,7 @@ from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
 from urllib.parse import urlsplit, urljoin
+from uuid import uuid4
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -208,10 +210,10 @@ class FetchedResource:
 
         p = self.fetch_info.parent
         while p != self._root:
-            if any(p.iterdir()):
+            try:
+                p.rmdir()
+            except OSError:  # not empty (anymore)
                 break
-
-            p.rmdir()
             p = p.parent
 
         clear_cached_properties(self)
@@ -249,12 +251,17 @@ class FetchedResource:
 
     def save(self, response: HTTPResponse):
         self.data.parent.mkdir(exist_ok=True, parents=True)
-        if self.fetch_info.exists():
-            self.fetch_info.unlink()
 
+        # the content is first stored aside, so that readers of the previous content are not disturbed, and it replaces
+        # the previous one only when it is complete. content that has no fetch info is considered as non existing
+        new_data = self.data.with_name(f"{uuid4().hex}.part")
         try:
-            with open(self.data, 'wb') as df:
+            with open(new_data, 'wb') as df:
                 shutil.copyfileobj(response, df)
+            _assert_not_truncated(response)
+
+            self.fetch_info.unlink(missing_ok=True)
+            os.replace(new_data, self.data)
 
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
@@ -269,7 +276,7 @@ class FetchedResource:
 
             fetch_info.save()
         except:  # noqa
-            self.delete()
+            new_data.unlink(missing_ok=True)
             raise
 
 
-- 
2.43.0


From df46940c9ba261a02330c48596e377651f46ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:48 +0000
Subject: [PATCH 04/70] fix: finished fetches never stay registered as in
 progress

A cache hit or an unreadable fetch info left the promise of the fetch registered forever, so
later fetches of the url never revalidated (or failed) regardless of their cache directive; a
fetch could also join one that merely accepted the cached copy.
---
 pkm/src/pkm/utils/http/http_client.py | 101 ++++++++++++++++----------
 1 file changed, 63 insertions(+), 38 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 9f36e30..42bd391 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -229,6 +229,18 @@ class FetchedResource:
     def fetch_info_data(self) -> FetchInfoConfig:
         return FetchInfoConfig.load(self.fetch_info)
 
+    def load_fetch_info(self) -> FetchInfoConfig:
+        """
+        :return: the stored fetch info, may be empty (if there is no such info or if the stored data of this
+                 resource is missing and therefore its info is meaningless)
+        """
+        try:
+            if self.data.exists():
+                return FetchInfoConfig.load(self.fetch_info)
+        except FileNotFoundError:
+            pass  # the resource is being updated at the moment
+        return FetchInfoConfig()
+
     def is_hash_valid(self, hash_function: str, hash_hex_value: str):
 
         fetch_info = self.fetch_info_data
@@ -423,6 +435,15 @@ class HttpClient:
             if not cache:
                 cache = CacheDirective.allways()
 
+            cache_files = self._resource_files_of(parsed_url)
+
+            def _use_cached_data() -> bool:
+                return cache.is_cache_valid(cache_files.load_fetch_info()) and cache_files.exists()
+
+            if _use_cached_data():
+                mop.notify(FetchResourceCacheHitEvent())
+                return cache_files
+
             cached = True
             with self._fetch_lock:
 
@@ -432,47 +453,42 @@ class HttpClient:
                 promise = self._fetch_inprogress.get(url)
 
                 if not promise:
+                    # may have been downloaded since checked, note that only actual requests should be shared with others
+                    # as the cached data that is acceptable for one may not be acceptable for the other
+                    if _use_cached_data():
+                        mop.notify(FetchResourceCacheHitEvent())
+                        return cache_files
+
                     cached = False
 
                     def _fetch() -> Optional[FetchedResource]:
                         headers = {}
-                        cache_files = self._resource_files_of(parsed_url)
-                        fetch_info = FetchInfoConfig.load(
-                            cache_files.fetch_info)  # TODO: maybe add the response headers
+                        fetch_info = cache_files.load_fetch_info()  # TODO: maybe add the response headers
                         _add_standard_headers(headers)
 
-                        use_cached_data = cache_files.exists() and cache.is_cache_valid(fetch_info)
-                        if use_cached_data:
-                            mop.notify(FetchResourceCacheHitEvent())
-                        else:
-                            # console.log(f"[Start]: GET {url}...")
-                            response: Optional[HTTPResponse] = None
-
-                            # noinspection PyShadowingNames
-                            try:
-                                cache.add_headers(fetch_info, headers)
-                                with self._request("GET", parsed_url, headers=headers) as response:
-                                    clength = int(response.headers.get('content-length', '-1'))
-                                    mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
-
-                                    # print(f"[MID] GET {url} resulted with status code: {response.status}...")
-
-                                    if response.status == 200:
-                                        cache_files.save(response)
-                                    elif response.status != 304:
-                                        raise HttpException(
-                                            f"request to {url} ended with unexpected status code:"
-                                            f" {response.status} ({response.msg})", response)
-                            except Exception as e:
-                                if isinstance(e, HttpException):
-                                    raise
-                                else:
-                                    raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
+                        # console.log(f"[Start]: GET {url}...")
+                        response: Optional[HTTPResponse] = None
+
+                        # noinspection PyShadowingNames
+                        try:
+                            cache.add_headers(fetch_info, headers)
+                            with self._request("GET", parsed_url, headers=headers) as response:
+                                clength = int(response.headers.get('content-length', '-1'))
+                                mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
+
+                                # print(f"[MID] GET {url} resulted with status code: {response.status}...")
+
+                                if response.status == 200:
+                                    cache_files.save(response)
+                                elif response.status != 304:
+                                    raise HttpException(
+                                        f"request to {url} ended with unexpected status code:"
+                                        f" {response.status} ({response.msg})", response)
+                        except Exception as e:
+                            if isinstance(e, HttpException):
+                                raise
+                            else:
+                                raise HttpException(str(e), response) from e
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -484,10 +500,19 @@ class HttpClient:
                 mop.notify(FetchResourceCacheHitEvent())
                 return promise.result()
 
+            resource, err = None, None
             try:
-                deffered.complete(_fetch())
-            except Exception as e:
-                deffered.fail(e)
+                resource = _fetch()
+            except BaseException as e:
+                err = e
+
+            with self._fetch_lock:
+                del self._fetch_inprogress[url]
+
+            if err is None:
+                deffered.complete(resource)
+            else:
+                deffered.fail(err)
 
             return promise.result()
 
-- 
2.43.0


From 1bf2dd1ccc0eca71064c16ee903c37eb9480cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 05/70] fix: unreadable ini files are reported instead of being
 treated as empty

---
 pkm/src/pkm/config/configfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 29b8453..fec69cc 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -59,7 +59,8 @@ class INIConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data = {}
         cp = _CaseSensitiveConfigParser()
-        cp.read(str(path))
+        with path.open('r') as fd:  # cp.read would silently ignore files it cannot open
+            cp.read_file(fd, str(path))
         for section_name, section_values in cp.items():
             if section_name and section_name != cp.default_section:
                 data[section_name] = {**section_values}
-- 
2.43.0


From f1bde8f315fb17e12b69a91258608856ef5ed09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 06/70] fix: failed copy transactions restore everything they
 touched

---
 pkm/src/pkm/utils/files.py | 80 +++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 1a01a49..39f6ca4 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -167,22 +167,15 @@ class CopyTransaction:
         :param file_copy: the function that will be used to copy a file
         """
 
-        if file_copy:
-            def cp(s, d):
-                file_copy(s, d)
-                self.touch(d)
-        else:
-            cp = self.copy
-
         self.mkdir(target)
         for file in source.iterdir():
             if not accept(file):
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
-                cp(file, target / file.name)
+                self.copy(file, target / file.name, file_copy)
 
     def mkdir(self, target: Path) -> Path:
         """
@@ -193,32 +186,45 @@ class CopyTransaction:
         if not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
-            target.mkdir()
-            self._copied_files.add(target)
+            try:
+                target.mkdir()
+                self._copied_files.add(target)
+            except FileExistsError:  # another transaction may have created it in the meanwhile
+                if not target.is_dir():
+                    raise
 
         return target
 
-    def copy(self, source: Path, target: Path):
+    def copy(self, source: Path, target: Path, file_copy: Optional[Callable[[Path, Path], None]] = None):
         """
         copies the `source` file into the `target` path, if the `target` already exists, overwrite it
         :param source: the source file to copy
         :param target: the target path to copy into
+        :param file_copy: the function that will be used to copy the file
         """
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
-            self.rm(target)
+        file_copy = file_copy or shutil.copy
+        self.will_write(target)
 
         try:
-            shutil.copy(source, target)
+            file_copy(source, target)
         except FileNotFoundError:
             if not target.exists():
                 self.mkdir(target.parent)
-                shutil.copy(source, target)
+                file_copy(source, target)
             else:
                 raise
 
+    def will_write(self, target: Path):
+        """
+        declares that `target` is about to be written as part of this transaction,
+        if it already exists, it will be moved away (and restored if the transaction fails)
+        :param target: the path of the file that is about to be written
+        """
+        if os.path.lexists(target):
+            self.rm(target)
         self._copied_files.add(target)
 
     @property
@@ -260,8 +266,18 @@ class CopyTransaction:
         :param path: the path to remove
         """
         temp = self._temp_dir / str(len(self._overwritten_files))
-        shutil.move(path, temp)
-        self._overwritten_files.append(path)
+        try:
+            os.rename(path, temp)
+            self._overwritten_files.append(path)
+        except OSError:  # probably in a different file system, do not remove anything before having a complete copy of it
+            if path.is_dir() and not path.is_symlink():
+                shutil.copytree(path, temp, symlinks=True)
+                self._overwritten_files.append(path)
+                shutil.rmtree(path)
+            else:
+                shutil.copy2(path, temp, follow_symlinks=False)
+                self._overwritten_files.append(path)
+                path.unlink()
 
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
@@ -276,21 +292,30 @@ class CopyTransaction:
             self._commit()
 
     def _commit(self):
-        shutil.rmtree(self._temp_dir)
+        shutil.rmtree(self._temp_dir, ignore_errors=True)
         self._temp_dir = None
 
     def _rollback(self):
+        directories = []
         for file in self._copied_files:
-            if not file.is_dir():
+            if file.is_dir() and not file.is_symlink():
+                directories.append(file)
+            else:
                 file.unlink(missing_ok=True)
 
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
-                file.rmdir()
+        for directory in sorted(directories, key=lambda it: len(it.parts), reverse=True):
+            try:
+                directory.rmdir()
+            except OSError:  # not empty - somebody else is using it
+                ...
 
-        for i, path in enumerate(self._overwritten_files):
-            restore_path = self._temp_dir / str(i)
-            shutil.move(restore_path, path)
+        # reversed, so that if a path was removed more than once it will end up with its original content
+        for i, path in reversed(list(enumerate(self._overwritten_files))):
+            if path.is_dir() and not path.is_symlink():
+                shutil.rmtree(path)
+            else:
+                path.unlink(missing_ok=True)
+            shutil.move(self._temp_dir / str(i), path)
 
         self._commit()
 
@@ -302,7 +327,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From feccbe025c501897bb303bf211a448ec249cf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 07/70] fix: package installation is rolled back completely and
 becomes visible at once

---
 .../api/distributions/wheel_distribution.py   | 70 +++++++++++++------
 1 file changed, 49 insertions(+), 21 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..c5484f1 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -1,11 +1,13 @@
 import compileall
 import importlib.util
+import os
 import re
+import shutil
 import warnings
 from dataclasses import replace
 from pathlib import Path
 from tempfile import TemporaryDirectory
-from typing import Optional, TYPE_CHECKING, List, Dict
+from typing import Optional, TYPE_CHECKING, Dict
 from zipfile import ZipFile
 
 from pkm.api.dependencies.dependency import Dependency
@@ -106,10 +108,13 @@ class WheelDistribution(Distribution):
 
         with CopyTransaction() as ct:
             for d in content.iterdir():
+                if d == dist_info.path:
+                    continue  # will be installed last, see below
+
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            target_path = getattr(target, k.name, None) or Path(target.data, k.name)
                             if k.name == 'scripts':
                                 ct.copy_tree(
                                     k, Path(target_path),
@@ -118,47 +123,68 @@ class WheelDistribution(Distribution):
                             else:
                                 ct.copy_tree(k, Path(target_path))
                     else:
-                        ct.copy_tree(d, site_packages / d.name, accept=lambda it: it != records_file.path)
+                        ct.copy_tree(d, site_packages / d.name)
                 else:
                     ct.copy(d, site_packages / d.name)
 
             # build entry points
             scripts_path = Path(target.scripts)
-            for entrypoint in entrypoints:
-                if entrypoint.is_script():
-                    ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
+            with temp_dir() as entrypoints_path:
+                for entrypoint in entrypoints:
+                    if entrypoint.is_script():
+                        executable = Executables.generate_for_entrypoint(target.env, entrypoint, entrypoints_path)
+                        ct.copy(executable, scripts_path / executable.name)
 
             #  compile py to pyc
-            new_pyc_files: List[str] = []
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
-                    if cc.suffix == '.py':
-                        compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
-
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
+                for cc in [it for it in ct.copied_files if it.suffix == '.py']:
+                    # mark the compiled files in the transaction, so that they will be added to record
+                    pyc_file = Path(importlib.util.cache_from_source(str(cc)))
+                    ct.mkdir(pyc_file.parent)
+                    ct.will_write(pyc_file)
+                    compileall.compile_file(cc, force=True, quiet=2)
+
+            # the dist-info is what makes the package "installed", therefore it is prepared aside and moved to its place
+            # only when everything else is ready
+            new_dist_info_path = site_packages / dist_info.path.name
+            preparation_path = site_packages / f".{dist_info.path.name}.installing"
+            if preparation_path.exists():  # leftover of an interrupted installation
+                shutil.rmtree(preparation_path)
+            new_dist_info = DistInfo.load(preparation_path / dist_info.path.name)
+            ct.copy_tree(dist_info.path, new_dist_info.path, accept=lambda it: it != records_file.path)
 
             # build the new records file
-            new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
             new_record_file = new_dist_info.load_record_cfg()
 
             precomputed_hashes = {
                 r.file: r.hash_signature for r in records_file.records if r.hash_signature
             } if not skip_record_verification else None
-            new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
 
+            dist_info_files = [it for it in ct.copied_files if preparation_path in it.parents]
+            new_record_file.sign_files(
+                [it for it in ct.copied_files if preparation_path not in it.parents], site_packages, precomputed_hashes)
+            new_record_file.sign_files(dist_info_files, preparation_path, precomputed_hashes)
+
+            ct.touch(new_record_file.path)
             new_record_file.save()
 
             # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            installer_path = new_dist_info.path / "INSTALLER"
+            ct.touch(installer_path)
+            installer_path.write_text(f"pkm")
             if user_request:
+                ct.touch(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                ct.touch(new_dist_info.installation_info_path())
                 new_dist_info.save_installation_info(installation_info)
 
+            if os.path.lexists(new_dist_info_path):
+                ct.rm(new_dist_info_path)
+            new_dist_info.path.rename(new_dist_info_path)
+            shutil.rmtree(preparation_path, ignore_errors=True)
+
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
                    installation_mode: Optional[PackageInstallationInfo] = None):
         """
@@ -190,9 +216,10 @@ def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInf
 
 
 def _remove_empty_directories(content: Path):
-    to_del = [d for d in content.glob("**/") if is_empty_directory(d)]
-    for d in to_del:
-        d.rmdir()
+    # deepest first, a directory may become empty after the removal of its sub directories
+    for d in sorted(content.glob("**/"), key=lambda it: len(it.parts), reverse=True):
+        if is_empty_directory(d):
+            d.rmdir()
 
 
 def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFileConfiguration):
@@ -211,6 +238,7 @@ def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFil
             if not record.hash_signature.validate_against(file):
                 if any(it.name.endswith('.dist-info') for it in file.parents):
                     warnings.warn(f"mismatch hash signature for {file}")
+                    record.hash_signature = None  # do not reuse it
                 else:
                     raise InstallationException(f"File signature not matched for: {record.file}")
 
-- 
2.43.0


From 1142fff98828132ed900d9714d296bff2ad1f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 08/70] fix: uninstall removes exactly the files of the package
 and can be repeated; failed updates are undone

---
 pkm/src/pkm/api/distributions/distinfo.py |  8 ++--
 pkm/src/pkm/api/packages/package.py       |  9 ++--
 pkm/src/pkm/api/packages/site_packages.py | 56 ++++++++++++++++++-----
 pkm/src/pkm/utils/files.py                | 14 +++++-
 4 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..18279e9 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -200,11 +200,9 @@ class DistInfo(Serializable):
         :return: paths to all the files that were installed to the environment via this package (taken from RECORD)
         """
         root = self.path.parent
-        for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
-
-        yield self.record_path()
+        files = [Path(root, record.file) for record in self.load_record_cfg().records]
+        for file in (*files, self.record_path()):
+            yield file.parent.resolve() / file.name  # the file itself may be a symlink that should not be followed
 
 
 @dataclass
diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..2c7a1a7 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -9,6 +9,7 @@ from pkm.api.packages.package_installation_info import StoreMode
 from pkm.api.versions.version import Version, StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch, StandardVersionRange
 from pkm.utils.commons import UnsupportedOperationException
+from pkm.utils.files import CopyTransaction
 from pkm.utils.properties import cached_property
 
 if TYPE_CHECKING:
@@ -194,9 +195,11 @@ class Package(ABC):
         """
         if preinstalled := target.site_packages.installed_package(self.name):
             user_request = user_request or preinstalled.user_request
-            preinstalled.uninstall()
-
-        self.install_to(target, user_request, store_mode=store_mode)
+            with CopyTransaction() as transaction:  # restores the previous version if this one cannot be installed
+                preinstalled.uninstall(transaction)
+                self.install_to(target, user_request, store_mode=store_mode)
+        else:
+            self.install_to(target, user_request, store_mode=store_mode)
 
     def __str__(self):
         return f"{self.name} {self.version}"
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 47ac6a5..2fff34b 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
-import shutil
+import os
+import re
 from pathlib import Path
 from typing import Optional, List, Dict, Iterable, TYPE_CHECKING, Iterator
 
@@ -11,7 +12,7 @@ from pkm.api.packages.package_installation_info import StoreMode, PackageInstall
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.utils.dicts import put_if_absent
-from pkm.utils.files import is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 from pkm.utils.sequences import pop_or_none
@@ -205,32 +206,65 @@ class InstalledPackage(Package, Serializable):
         else:
             self.dist_info.unmark_as_user_requested()
 
-    def uninstall(self):
+    def uninstall(self, transaction: Optional[CopyTransaction] = None):
         """
         uninstall this package from its site packages
+        :param transaction: if given, the removal is made as part of this transaction,
+            and will be rolled back together with it
         """
 
+        def is_real_directory(path: Path):
+            return path.is_dir() and not path.is_symlink()
+
+        def remove(path: Path):
+            if is_real_directory(path):
+                transaction.rmdir(path) if transaction else path.rmdir()
+            elif os.path.lexists(path):
+                transaction.rm(path) if transaction else path.unlink()
+
+        dist_info_path = self.dist_info.path.resolve()
+        installation_site = dist_info_path.parent
+        record_path = dist_info_path / self.dist_info.record_path().name
+
         parents_to_check = set()
         for installed_file in self._dist_info.installed_files():
-            installed_file.unlink(missing_ok=True)
+            if dist_info_path in installed_file.parents:
+                continue  # will be removed last, so that an interrupted removal can be repeated
+
+            if not is_real_directory(installed_file):
+                remove(installed_file)
             parents_to_check.add(installed_file.parent)
 
-        installation_site = self.dist_info.path.parent
+            if installed_file.suffix == '.py' and \
+                    is_real_directory(precompiled := installed_file.parent / "__pycache__"):
+                compiled_rx = re.compile(re.escape(installed_file.stem) + r"\.[^.]+(\.opt-[^.]+)?\.pyc")
+                for compiled_file in list(precompiled.iterdir()):
+                    if compiled_rx.fullmatch(compiled_file.name):
+                        remove(compiled_file)
+                parents_to_check.add(precompiled)
+
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
 
             if parent == installation_site or not is_relative_to(parent, installation_site):
                 continue
 
-            if (precompiled := parent / "__pycache__").exists():
-                shutil.rmtree(precompiled, ignore_errors=True)
+            try:
+                if is_empty_directory(parent):
+                    remove(parent)
+            except OSError:
+                if is_empty_directory(parent):
+                    raise
+                # otherwise, somebody else removed it or started using it in the meanwhile
 
-            if is_empty_directory(parent):
-                parent.rmdir()
+            if not os.path.lexists(parent):
                 parents_to_check.add(parent.parent)
 
-        if self._dist_info.path.exists():
-            shutil.rmtree(self._dist_info.path)
+        for leftover in (installation_site / f".{dist_info_path.name}.installing", dist_info_path):
+            files = sorted(leftover.rglob("*"), key=lambda it: (it != record_path, len(it.parts)), reverse=True)
+            for file in files:
+                remove(file)
+            remove(leftover)
 
         if self.site:
             self.site.reload()
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 39f6ca4..f26d8c6 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -279,6 +279,14 @@ class CopyTransaction:
                 self._overwritten_files.append(path)
                 path.unlink()
 
+    def rmdir(self, path: Path):
+        """
+        remove the given empty directory (rollback supported operation)
+        :param path: the path to the directory to remove
+        """
+        path.rmdir()
+        self._overwritten_files.append(path)
+
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
         return self
@@ -311,11 +319,15 @@ class CopyTransaction:
 
         # reversed, so that if a path was removed more than once it will end up with its original content
         for i, path in reversed(list(enumerate(self._overwritten_files))):
+            if not os.path.lexists(temp := self._temp_dir / str(i)):  # an empty directory
+                path.mkdir(parents=True, exist_ok=True)
+                continue
+
             if path.is_dir() and not path.is_symlink():
                 shutil.rmtree(path)
             else:
                 path.unlink(missing_ok=True)
-            shutil.move(self._temp_dir / str(i), path)
+            shutil.move(temp, path)
 
         self._commit()
 
-- 
2.43.0


From f0ac6d19a3ead631a00bb43c555c760a657f9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 09/70] fix: toml files that end with a comment or contain
 strings ending with a backslash are parsed

---
 pkm/src/pkm/config/toml.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..4323e08 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -407,19 +407,27 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, t: t[i] == '\n')
             else:
                 break
 
         return result
 
+    def _until_unescaped(self, end: str) -> str:
+        start = self.position
+
+        def is_end(i: int, text: str) -> bool:
+            if not text.startswith(end, i):
+                return False
+            preceding = text[start:i]
+            backslashes = len(preceding) - len(preceding.rstrip('\\'))
+            return backslashes % 2 == 0
+
+        return self.until(is_end)
+
     def read_multiline_basic_str(self) -> str:
         self.match_or_err('"""', 'multiline basic string expected')
-        s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
-            s += self.next(3) + self.until_match('"""')
-
-        s += '"""'
+        s = '"""' + self._until_unescaped('"""') + '"""'
         self.match_or_err('"""', 'multiline basic string ending expected')
 
         return eval(s)
@@ -432,11 +440,7 @@ class _TomlParser(SimpleParser):
 
     def read_basic_str(self) -> str:
         self.match_or_err('"', 'basic string expected')
-        s = '"' + self.until_match('"')
-        while s[-1] == '\\':
-            s += self.next() + self.until_match('"')
-
-        s += '"'
+        s = '"' + self._until_unescaped('"') + '"'
         self.match_or_err('"', 'basic string ending expected')
 
         return eval(s)
-- 
2.43.0


From e2b4428f5dfcc2ceeff229fcf24b282201671493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 10/70] fix: default configuration files are created atomically

---
 pkm/src/pkm/api/pkm.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/pkm.py b/pkm/src/pkm/api/pkm.py
index 7ed1ab8..36ca6f9 100644
--- a/pkm/src/pkm/api/pkm.py
+++ b/pkm/src/pkm/api/pkm.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, List
 
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
-from pkm.utils.files import mkdir
+from pkm.utils.files import mkdir, open_for_replace
 from pkm.utils.http.http_client import HttpClient
 from pkm.utils.multiproc import ProcessPoolExecutor
 from pkm.utils.properties import cached_property, clear_cached_properties
@@ -39,6 +39,13 @@ class PkmGeneralConfiguration(ConfigFile):
     interpreters_search_paths: List[str] = config_field(key='interpreters.search-paths', default_factory=list)
 
 
+def _create_default_config(resource: str, target: Path):
+    mkdir(target.parent)
+    with ResourcePath('pkm.resources', resource).use() as default_config:
+        with open_for_replace(target, 'wb') as target_fd:
+            target_fd.write(default_config.read_bytes())
+
+
 class HasAttachedRepository(ABC):
 
     @property
@@ -66,9 +73,7 @@ class Pkm(HasAttachedRepository):
     def config(self) -> PkmGeneralConfiguration:
         general_config = self.home / 'etc/pkm/general.toml'
         if not general_config.exists():
-            mkdir(general_config.parent)
-            with ResourcePath('pkm.resources', 'default_pkm_general.toml').use() as default_pkm_general_cfg:
-                shutil.copy(default_pkm_general_cfg, general_config)
+            _create_default_config('default_pkm_general.toml', general_config)
 
         return PkmGeneralConfiguration.load(general_config)
 
@@ -101,9 +106,7 @@ class Pkm(HasAttachedRepository):
 
         repo_config = self.home / REPOSITORIES_CONFIGURATION_PATH
         if not repo_config.exists():
-            mkdir(repo_config.parent)
-            with ResourcePath('pkm.resources', 'default_pkm_repositories.toml').use() as default_pkm_repo_cfg:
-                shutil.copy(default_pkm_repo_cfg, repo_config)
+            _create_default_config('default_pkm_repositories.toml', repo_config)
 
         return RepositoryLoader(
             repo_config,
-- 
2.43.0


From 0b6a279968b42e8dfbdac720463c5fa9c4682477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 11/70] fix: cached properties are computed by one thread at a
 time and never keep outdated values

---
 pkm/src/pkm/utils/properties.py | 76 ++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 26 deletions(-)

diff --git a/pkm/src/pkm/utils/properties.py b/pkm/src/pkm/utils/properties.py
index 56630a6..02df17c 100644
--- a/pkm/src/pkm/utils/properties.py
+++ b/pkm/src/pkm/utils/properties.py
@@ -2,13 +2,19 @@ from dataclasses import FrozenInstanceError
 from threading import RLock
 
 from typing import TypeVar, Callable, Any, Dict
-from weakref import WeakKeyDictionary
 
 from pkm.utils.commons import UnsupportedOperationException
 
 _T = TypeVar("_T")
 
 
+class _Computation:
+    def __init__(self):
+        self.lock = RLock()
+        self.participants = 0
+        self.outdated = False
+
+
 # noinspection PyPep8Naming
 class cached_property:
 
@@ -17,61 +23,79 @@ class cached_property:
         self._attr = None
         self.__doc__ = func.__doc__
         self._mutation_lock = RLock()
-        self._instance_locks: Dict[int, RLock] = {}
+        self._computations: Dict[int, _Computation] = {}  # by instance id, exists only while there are participants
         self._setter = None
 
     def __set_name__(self, owner, name):
         self._attr = f"_cached_{name}"
 
-    def _compute(self, instance):
+    def _compute(self, instance) -> _T:
         iid = id(instance)
-        instance_lock_owner = False
         with self._mutation_lock:
-            if not (instance_lock := self._instance_locks.get(iid)):
-                self._instance_locks[iid] = instance_lock = RLock()
-                instance_lock_owner = True
+            if not (computation := self._computations.get(iid)):
+                self._computations[iid] = computation = _Computation()
+            computation.participants += 1
 
-        with instance_lock:
-            if not hasattr(instance, self._attr):
-                value = self._func(instance)
+        try:
+            with computation.lock:
                 try:
-                    setattr(instance, self._attr, value)
-                except FrozenInstanceError:
-                    super(instance.__class__, instance).__setattr__(self._attr, value)
+                    return getattr(instance, self._attr)
+                except AttributeError:
+                    ...
 
-        if instance_lock_owner:
+                computation.outdated = False
+                value = self._func(instance)
+                with self._mutation_lock:
+                    if not computation.outdated:  # was not cleared or replaced while computing
+                        self._store(instance, value)
+                return value
+        finally:
             with self._mutation_lock:
-                del self._instance_locks[iid]
+                computation.participants -= 1
+                if not computation.participants:
+                    del self._computations[iid]
+
+    def _store(self, instance, value: _T):
+        try:
+            setattr(instance, self._attr, value)
+        except FrozenInstanceError:
+            super(instance.__class__, instance).__setattr__(self._attr, value)
 
     def __get__(self, instance, owner) -> _T:
         if instance is None:
             return self
 
-        while True:
-            try:
-                return getattr(instance, self._attr)
-            except AttributeError:
-                ...
-            self._compute(instance)
+        try:
+            return getattr(instance, self._attr)
+        except AttributeError:
+            ...
+        return self._compute(instance)
 
     def setter(self, func: _T) -> _T:
         self._setter = func
         return self
 
+    def _invalidate(self, instance):
+        if computation := self._computations.get(id(instance)):
+            computation.outdated = True
+        if hasattr(instance, self._attr):
+            delattr(instance, self._attr)
+
     def __set__(self, instance, value: _T):
         if instance is None:
             raise UnsupportedOperationException()
 
         if self._setter:
             self._setter(instance, value)
-            if hasattr(instance, self._attr):
-                delattr(instance, self._attr)
+            self.__delete__(instance)
         else:
-            setattr(instance, self._attr, value)
+            with self._mutation_lock:
+                self._invalidate(instance)
+                setattr(instance, self._attr, value)
 
     def __delete__(self, instance):
-        if hasattr(instance, self._attr):
-            delattr(instance, self._attr)
+        with self._mutation_lock:
+            self._invalidate(instance)
 
 
 def clear_cached_properties(obj: Any):
-- 
2.43.0


From 918163a0845cf55e9bde24eafb826bdfa5de30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 12/70] fix: promises waiting honours every kind of error

---
 pkm/src/pkm/utils/promises.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index e432a52..39cf142 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -102,7 +102,7 @@ class Promise(ABC, Generic[_T]):
 def await_all_promises_or_cancel(promises: List[Promise]):
     try:
         await_all_promises(promises)
-    except Exception as e:
+    except BaseException as e:
         for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:
             try:
                 p.result()
@@ -181,7 +181,7 @@ class _SimplePromise(Promise[_T]):
         while True:
             with self._wait_lock:
                 if self._done:
-                    if self._err:
+                    if self._err is not None:
                         raise self._err
                     return self._result
 
@@ -194,7 +194,7 @@ class _SimplePromise(Promise[_T]):
         return self._done
 
     def is_failed(self) -> bool:
-        return self._done and self._err
+        return self._done and self._err is not None
 
     def request_cancel(self) -> bool:
         return False
-- 
2.43.0


From afe15bfbf7ba007bad427a9da0a59863aadc4f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 13/70] fix: progress listeners never change the outcome of
 operations and can be detached in any order

---
 pkm/src/pkm/utils/monitors.py | 54 ++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/utils/monitors.py b/pkm/src/pkm/utils/monitors.py
index 3e466ca..01ce535 100644
--- a/pkm/src/pkm/utils/monitors.py
+++ b/pkm/src/pkm/utils/monitors.py
@@ -1,6 +1,7 @@
 import inspect
 from contextlib import contextmanager
 from dataclasses import dataclass
+from threading import Lock
 from typing import Any, Callable, Type, Dict, Optional, Generator
 
 from pkm.utils.dicts import get_or_put
@@ -9,6 +10,9 @@ from pkm.utils.properties import cached_property
 from pkm.utils.strings import startswith_any
 
 
+_callbacks_lock = Lock()
+
+
 @dataclass
 class _Callback:
     parent: Optional["_Callback"] = None
@@ -25,23 +29,40 @@ class _Monitor:
         return {}
 
     def add_listeners(self, **callbacks):
-        new_callbacks: Dict[Type, _Callback] = self._create_callbacks(callbacks)
-        for type_, callback in new_callbacks.items():
-            self._callbacks[type_] = callback
+        self._attach(self._create_callbacks(callbacks))
 
     @contextmanager
     def listen(self, **callbacks):
 
         method_name: str
         new_callbacks: Dict[Type, _Callback] = self._create_callbacks(callbacks)
-        for type_, callback in new_callbacks.items():
-            self._callbacks[type_] = callback
+        self._attach(new_callbacks)
 
         try:
             yield
         finally:
-            for type_, callback in new_callbacks.items():
-                self._callbacks[type_] = callback.parent
+            self._detach(new_callbacks)
+
+    def _attach(self, callbacks: Dict[Type, _Callback]):
+        with _callbacks_lock:
+            for type_, callback in callbacks.items():
+                callback.parent = self._callbacks.get(type_)
+                self._callbacks[type_] = callback
+
+    def _detach(self, callbacks: Dict[Type, _Callback]):
+        with _callbacks_lock:
+            for type_, callback in callbacks.items():
+                current = self._callbacks.get(type_)
+                if current is callback:
+                    self._callbacks[type_] = callback.parent
+                    continue
+
+                # others attached themselves in the meanwhile, and they may be detached later
+                while current:
+                    if current.parent is callback:
+                        current.parent = callback.parent
+                        break
+                    current = current.parent
 
     def _create_callbacks(self, callbacks: Dict[str, Any]) -> Dict[Type, _Callback]:
         new_callbacks: Dict[Type, _Callback] = {}
@@ -55,9 +76,7 @@ class _Monitor:
 
                 first_arg = arg_inspection.args[0]
                 if first_arg_type := arg_inspection.annotations.get(first_arg):
-                    callback: _Callback = get_or_put(
-                        new_callbacks, first_arg_type,
-                        lambda: _Callback(self._callbacks.get(first_arg_type)))
+                    callback: _Callback = get_or_put(new_callbacks, first_arg_type, _Callback)
 
                     if mode in ("enter_", "on_"):
                         callback.enter_method = method
@@ -87,7 +106,13 @@ class _Monitor:
 
                             def fail(x: Any, err: Exception, *args, **kwargs):
                                 if coroutine := coroutines.pop(id(x), None):
-                                    coroutine.throw(err)
+                                    try:
+                                        coroutine.throw(err)
+                                    except StopIteration:
+                                        pass
+                                    except BaseException as e:
+                                        if e is not err and e.__cause__ is not err:
+                                            raise
 
                             callback.enter_method = enter
                             callback.leave_method = leave
@@ -106,13 +131,14 @@ class _Monitor:
         try:
             cb and cb.enter_method and cb.enter_method(context)
             yield
-        except Exception as e:
+        except BaseException as e:
             cb and cb.fail_method and cb.fail_method(context, e)
+            raise
         finally:
             cb and cb.leave_method and cb.leave_method(context)
 
     def notify(self, event: Any):
-        (cb := self._callbacks.get(type(event))) and cb.enter_method(event)
+        (cb := self._callbacks.get(type(event))) and cb.enter_method and cb.enter_method(event)
 
 
 Monitor = _Monitor()
@@ -140,7 +166,7 @@ class MonitoredOperation(_Monitor):
     def __exit__(self, exc_type, exc_val, exc_tb):
         cb = self._callback
 
-        if exc_val:
+        if exc_val is not None:
             cb and cb.fail_method and cb.fail_method(self, exc_val)
 
         cb and cb.leave_method and cb.leave_method(self)
-- 
2.43.0


From 36c92afef7128949ecb758128428b39896b38649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 14/70] fix: artifacts with a wrong digest are not kept in the
 cache and url fragments are not sent to servers

---
 pkm/src/pkm/repositories/pypi_repository.py   | 14 ++++++----
 pkm/src/pkm/repositories/simple_repository.py | 12 ++++----
 pkm/src/pkm/utils/http/http_client.py         | 28 +++++++++++++++++--
 3 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 6577c9f..905de29 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -97,9 +97,7 @@ class PypiPackage(AbstractPackage, Serializable):
         if not url:
             raise KeyError(f'could not find url in given artifact info: {artifact}')
 
-        resource = self._repo._http.fetch_resource(url, resource_name=f"{self.name} {self.version}")
-        if not resource:
-            raise FileNotFoundError(f'cannot find requested artifact: {artifact.file_name}')
+        http, resource_name = self._repo._http, f"{self.name} {self.version}"
 
         # validate package hash if available
         if digests := artifact.other_info['digests']:
@@ -107,9 +105,15 @@ class PypiPackage(AbstractPackage, Serializable):
             if hash_function not in digests:
                 hash_function = first_or_none(digests.keys())
 
-            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):
-                raise InstallationException(f"invalid hash for resource downloaded from {url}")
+            if hash_function is not None:
+                resource = http.fetch_verified_resource(url, hash_function, digests[hash_function], resource_name)
+                if not resource:
+                    raise InstallationException(f"invalid hash for resource downloaded from {url}")
+                return resource.data
 
+        resource = http.fetch_resource(url, resource_name=resource_name)
+        if not resource:
+            raise FileNotFoundError(f'cannot find requested artifact: {artifact.file_name}')
         return resource.data
 
     def _unfiltered_dependencies(self, environment: Environment) -> List["Dependency"]:
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..be9e749 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -112,16 +112,18 @@ class _SimplePackage(AbstractPackage, Serializable):
 
     def _retrieve_artifact(self, artifact: PackageArtifact) -> Path:
         url = artifact.other_info['url']
-        resource = pkm.httpclient.fetch_resource(url, CacheDirective.allways(),
-                                                 resource_name=f"{self.name} {self.version}")
+        resource_name = f"{self.name} {self.version}"
 
         fragment = Url.parse(url).fragment
         if fragment:
             hash_function, _, hash_value = fragment.partition("=")
-            if hash_function and hash_value and not resource.is_hash_valid(hash_function, hash_value):
-                raise InstallationException(f"Invalid hash for a resource received from {url}")
+            if hash_function and hash_value:
+                resource = pkm.httpclient.fetch_verified_resource(url, hash_function, hash_value, resource_name)
+                if not resource:
+                    raise InstallationException(f"Invalid hash for a resource received from {url}")
+                return resource.data
 
-        return resource.data
+        return pkm.httpclient.fetch_resource(url, CacheDirective.allways(), resource_name=resource_name).data
 
 
 class SimpleRepositoryBuilder(RepositoryBuilder):
diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 42bd391..0f8bbad 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -67,8 +67,7 @@ class Url:
 
     def resource_part(self) -> str:
         query_str = "" if not self.query_string else f"?{self.query_string}"
-        fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.path}{query_str}{fragment_str}"
+        return f"{self.path}{query_str}"  # the fragment is not part of the request
 
     def __str__(self):
         default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
@@ -328,6 +327,7 @@ class HttpClient:
         self._pool = _ConnectionPool()
         self._fetch_inprogress: Dict[str, Promise[FetchedResource]] = {}
         self._fetch_lock = Lock()
+        self._verification_locks: Dict[str, Lock] = {}
         self._max_redirects = max_redirects
         self._max_connection_retries = max_connection_retries
 
@@ -516,6 +516,30 @@ class HttpClient:
 
             return promise.result()
 
+    def fetch_verified_resource(
+            self, url: str, hash_function: str, hash_hex_value: str,
+            resource_name: Optional[str] = None) -> Optional[FetchedResource]:
+        """
+        fetches a resource (from the cache if possible) that its content must have the given hash,
+        content that does not have this hash is not kept in the cache
+        :param url: the url to fetch
+        :param hash_function: the name of the hash function
+        :param hash_hex_value: the required hash of the content
+        :param resource_name: name of the resource to use for monitoring
+        :return: the fetched resource or None if its content does not have the required hash
+        """
+        with self._fetch_lock:
+            verification_lock = get_or_put(self._verification_locks, url, Lock)
+
+        with verification_lock:  # a verified content should not be replaced by others that are verifying it
+            for cache in (CacheDirective.allways(), CacheDirective.never()):
+                resource = self.fetch_resource(url, cache, resource_name=resource_name)
+                if resource.is_hash_valid(hash_function, hash_hex_value):
+                    return resource
+            resource.delete()
+
+        return None
+
     def clear_resources(self):
         shutil.rmtree(self.workspace)
         self.workspace.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From b9a7c3d3889e6d520cc06339358a06d5fc62124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 15/70] fix: package metadata, request marks and path links are
 replaced atomically

---
 pkm/src/pkm/api/distributions/distinfo.py    | 8 +++++---
 pkm/src/pkm/api/distributions/pth_link.py    | 4 ++--
 pkm/src/pkm/api/packages/package_metadata.py | 4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index 18279e9..ed5d49d 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -15,7 +15,7 @@ from pkm.config.configfiles import INIConfigIO, WheelFileConfigIO, CSVConfigIO
 from pkm.utils.commons import UnsupportedOperationException
 from pkm.utils.dicts import get_or_compute
 from pkm.utils.entrypoints import EntryPoint, ObjectReference
-from pkm.utils.files import path_to
+from pkm.utils.files import open_for_replace, path_to
 from pkm.utils.hashes import HashSignature
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
@@ -85,7 +85,8 @@ class DistInfo(Serializable):
         return None
 
     def save_installation_info(self, installation_mode: PackageInstallationInfo):
-        self.installation_info_path().write_text(json.dumps(installation_mode.to_config()))
+        with open_for_replace(self.installation_info_path()) as info_fd:
+            info_fd.write(json.dumps(installation_mode.to_config()))
 
     def load_metadata_cfg(self) -> "PackageMetadata":
         """
@@ -137,7 +138,8 @@ class DistInfo(Serializable):
         package depends on it
         :param info: information about the user request
         """
-        self.user_requested_path().write_text(str(info))
+        with open_for_replace(self.user_requested_path()) as request_fd:
+            request_fd.write(str(info))
 
     def unmark_as_user_requested(self):
         """
diff --git a/pkm/src/pkm/api/distributions/pth_link.py b/pkm/src/pkm/api/distributions/pth_link.py
index 3275056..b20bf05 100644
--- a/pkm/src/pkm/api/distributions/pth_link.py
+++ b/pkm/src/pkm/api/distributions/pth_link.py
@@ -2,7 +2,7 @@ import os
 from pathlib import Path
 from typing import List, Optional
 
-from pkm.utils.files import ensure_exists
+from pkm.utils.files import ensure_exists, open_for_replace
 from pkm.utils.strings import startswith_any
 
 
@@ -31,7 +31,7 @@ class PthLink:
         self.links = links
 
     def save(self):
-        with self.path.open('w+') as out:
+        with open_for_replace(self.path) as out:
             if self.imports:
                 for imp in self.imports:
                     out.write('import ')
diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..e7c6673 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -12,6 +12,7 @@ from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
 from pkm.config.configclass import ConfigIO, config, config_field, ConfigFile
 from pkm.utils.dicts import get_or_put, remove_none_values
+from pkm.utils.files import open_for_replace
 
 if TYPE_CHECKING:
     from pkm.api.projects.pyproject_configuration import ProjectConfig
@@ -50,7 +51,8 @@ class PackageMetadataIO(ConfigIO):
         if payload := data.get("Description"):
             msg.set_payload(payload)
 
-        path.write_text(msg.as_string())
+        with open_for_replace(path) as metadata_fd:
+            metadata_fd.write(msg.as_string())
 
     def read(self, path: Path) -> Dict[str, Any]:
         if not path.exists():
-- 
2.43.0


From b1b0d3bdbd816c36b57f0f4dc671873020bb4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 16/70] fix: package records with an unsigned entry can be
 saved again

---
 pkm/src/pkm/config/configfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index fec69cc..f26ea53 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -109,7 +109,7 @@ class CSVConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
         with open_for_replace(path, newline='') as new_record_fd:
             for record in data['records']:
-                csv.writer(new_record_fd).writerow(record[c] for c in self._headers)
+                csv.writer(new_record_fd).writerow(record.get(c, '') for c in self._headers)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         with path.open('r', newline='') as records_fd:
-- 
2.43.0


From 0a76fbd40d3826c3165f1c3519deb68839e9e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 17/70] fix: repositories configuration with package bindings
 can be loaded and saved

---
 pkm/src/pkm/api/repositories/repositories_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..23d3af0 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from enum import Enum
-from typing import Any, Dict, Mapping
+from typing import Any, Dict
 
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
@@ -29,7 +29,7 @@ class RepositoryInstanceConfig:
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
-- 
2.43.0


From 13908b2b5673f4f468784a0e7262f510aa86f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 18/70] fix: package metadata values survive saving
 (description, long and non ascii values)

---
 pkm/src/pkm/api/packages/package_metadata.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index e7c6673..41fc80d 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -4,6 +4,7 @@ import warnings
 from dataclasses import dataclass
 from email.message import EmailMessage
 from email.parser import Parser
+from email.policy import EmailPolicy
 from pathlib import Path
 from typing import List, TYPE_CHECKING, Dict, Any
 
@@ -19,6 +20,9 @@ if TYPE_CHECKING:
 
 _METADATA_VERSION = '2.1'
 
+# values are written as is: neither folded into several lines nor encoded
+_METADATA_POLICY = EmailPolicy(utf8=True, max_line_length=None)
+
 _MULTI_FIELDS = {
     'Provides-Extra', 'Platform', 'Supported-Platform', 'Classifier', 'Requires-Dist', 'Provides-Dist',
     'Obsoletes-Dist', 'Requires-External', 'Project-URL', 'Dynamic'
@@ -28,7 +32,7 @@ _MULTI_FIELDS = {
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        msg = EmailMessage(_METADATA_POLICY)
         for key, value in data.items():
             if value is None:
                 continue
@@ -74,6 +78,9 @@ class PackageMetadataIO(ConfigIO):
                 else:
                     data[key] = value
 
+            if description := content.get_payload():
+                data["Description"] = description
+
         return data
 
 
-- 
2.43.0


From d2ea49724626538faf6d9a4a6cdd3f97e287e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 19/70] fix: configuration fields that are declared optional
 can be loaded and saved

---
 pkm/src/pkm/config/configclass.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..48755a2 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -388,6 +388,14 @@ def config_field(
     return ConfigField(**locals())
 
 
+def _strip_optional(type_: Type) -> Type:
+    if typing.get_origin(type_) is typing.Union:
+        actual_types = [it for it in typing.get_args(type_) if it is not type(None)]
+        if len(actual_types) == 1:
+            return actual_types[0]
+    return type_
+
+
 def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
     """
     important note: if you want to apply both config and dataclass, use first dataclass and then config
@@ -407,7 +415,7 @@ def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
                     schema = ConfigField(default=schema)
 
                 setattr(cls_, field, schema.to_dataclass_field())  # remove before applying dataclass
-                schema.type = type_
+                schema.type = _strip_optional(type_)
                 config_schema[field] = schema
 
         for field, value in cls_.__dict__.items():
-- 
2.43.0


From 63738921f2f2fb88bcdb8ed5c9d3938b2fb87d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 20/70] fix: saving a configuration keeps the sections that
 share a table with unknown keys

---
 pkm/src/pkm/config/configclass.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 48755a2..25824cd 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -269,6 +269,16 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _merged(config_: _RAW_CONFIG_T, leftovers: Mapping[str, Any]) -> _RAW_CONFIG_T:
+    result = dict(config_)
+    for key, value in leftovers.items():
+        if key not in result:
+            result[key] = value
+        elif isinstance(result[key], Mapping) and isinstance(value, Mapping):
+            result[key] = _merged(result[key], value)
+    return result
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -346,7 +356,7 @@ class ConfigCodec:
             value = getattr(config_object, field, None)
             if value is not None:
                 if schema.leftover:
-                    target_config.update(value)
+                    target_config = _merged(target_config, value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
-- 
2.43.0


From d19d4fd4893377d92ac344d7ba1ccf38127a1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 21/70] fix: configurations that cannot be written in the style
 of the existing file are written in the default style

---
 pkm/src/pkm/config/configfiles.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index f26ea53..0b88cb6 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -11,6 +11,23 @@ from pkm.config.configclass import ConfigIO, _RAW_CONFIG_T, ConfigCodec, ConfigF
 from pkm.utils.files import open_for_replace
 
 
+def _without_empty_tables(data: Any) -> Any:
+    if isinstance(data, Mapping):
+        items = ((k, _without_empty_tables(v)) for k, v in data.items())
+        return {k: v for k, v in items if v != {}}
+    if isinstance(data, list):
+        return [_without_empty_tables(it) for it in data]
+    return data
+
+
+def _is_toml_of(content: str, data: _RAW_CONFIG_T) -> bool:
+    try:
+        written, _ = toml.loads(content)
+    except (SyntaxError, ValueError):
+        return False
+    return _without_empty_tables(written) == _without_empty_tables(data)
+
+
 class TomlConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
         dumps = toml.dumps
@@ -18,6 +35,12 @@ class TomlConfigIO(ConfigIO):
             _, dumps = toml.load(path)
 
         content = dumps(data)
+        if not _is_toml_of(content, data):
+            # cannot be written in the style of the existing file
+            content = toml.dumps(data)
+            if not _is_toml_of(content, data):
+                raise ValueError(f"configuration cannot be represented as toml: {path}")
+
         with open_for_replace(path) as fd:
             fd.write(content)
 
-- 
2.43.0


From b0d9e3f61aee5d013a3da02d6369a218ee439e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 22/70] fix: loading a repository does not change its
 configuration

---
 pkm/src/pkm/api/repositories/repository_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..d387d1d 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -105,8 +105,8 @@ class RepositoryLoader:
             if isinstance(binding, str):
                 package_binding[package] = binding
             else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
+                binding_args = dict(binding)
+                binding = self.build(name, binding_args.pop('type'), **binding_args)
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
-- 
2.43.0


From 86801808b7bbfb4d8fefde9311daafabc41b2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 23/70] fix: the packages lock recognizes differently spelled
 names and prefers the environment's own locks

---
 pkm/src/pkm/resolution/packages_lock.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..eac999d 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
@@ -120,8 +120,9 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
-            locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+            locked_versions = [lp.version for lp in self.locked_versions(env, packages[0].name)]
+            packages = sorted(packages, key=lambda it: locked_versions.index(
+                it.version) if it.version in locked_versions else len(locked_versions))
 
         return packages
 
-- 
2.43.0


From 2406d1c38be035d75b348008b1e41f0179dcce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 24/70] fix: the publish credentials store is replaced
 atomically and a failed unlock or save changes nothing

---
 .../src/pkm_cli/auth/publish_auth_store.py    | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/auth/publish_auth_store.py b/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
index 629fb59..b510d0c 100644
--- a/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
+++ b/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
@@ -9,7 +9,7 @@ from cryptography.hazmat.primitives.kdf.pbkdf2 import PBKDF2HMAC
 
 from pkm.api.pkm import pkm
 from pkm.config import toml
-from pkm.utils.files import mkdir
+from pkm.utils.files import mkdir, open_for_replace
 from pkm_cli.display.display import Display
 
 _PUBLISH_AUTH_CONFIG_PATH = "etc/pkm-cli/repositories-publish-auth.toml.enc"
@@ -43,21 +43,23 @@ class PublishAuthenticationStore:
                         Display.print("Passwords did not match, retrying process.")
                         continue
                     break
-            self._cipher = _make_cipher(password)
-            self._unlocked_configuration = {}
+            cipher = _make_cipher(password)
+            configuration = {}
         else:
             if not password:
                 password = Display.ask_password("Please provide the authentication store password")
-            self._cipher = _make_cipher(password)
+            cipher = _make_cipher(password)
             try:
-                configuration_str = self._cipher.decrypt(configuration_path.read_bytes()).decode()
+                configuration_str = cipher.decrypt(configuration_path.read_bytes()).decode()
             except InvalidToken:
                 configuration_str = ""
             if not configuration_str.startswith(_PA_MAGIC):
                 raise IOError("Wrong password provided")
 
             configuration, _ = toml.loads(configuration_str[len(_PA_MAGIC):])
-            self._unlocked_configuration = configuration
+
+        self._cipher = cipher
+        self._unlocked_configuration = configuration
 
     def is_unlocked(self):
         return self._cipher is not None
@@ -73,18 +75,20 @@ class PublishAuthenticationStore:
         self._ensure_unlocked()
         return self._unlocked_configuration.get(repository_name)
 
-    def _save(self):
+    def _save(self, configuration: Dict[str, Any]):
         configuration_path = self.configuration_path
         mkdir(configuration_path.parent)
-        configuration_str = _PA_MAGIC + toml.dumps(self._unlocked_configuration)
-        configuration_path.write_bytes(self._cipher.encrypt(configuration_str.encode()))
+        configuration_str = _PA_MAGIC + toml.dumps(configuration)
+        with open_for_replace(configuration_path, 'wb') as configuration_fd:
+            configuration_fd.write(self._cipher.encrypt(configuration_str.encode()))
+        self._unlocked_configuration = configuration
 
     def add_auth_args(self, repository_name: str, args: Dict[str, str]):
         self._ensure_unlocked()
-        self._unlocked_configuration[repository_name] = args
-        self._save()
+        self._save({**self._unlocked_configuration, repository_name: args})
 
     def rm_auth_args(self, repository_name: str):
         self._ensure_unlocked()
-        del self._unlocked_configuration[repository_name]
-        self._save()
+        configuration = {**self._unlocked_configuration}
+        del configuration[repository_name]
+        self._save(configuration)
-- 
2.43.0


From af83365431f9a30b148d13306755c7e38506a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 25/70] fix: packages required by a build are not mistaken for
 a build cycle and local distributions know their dependencies

---
 pkm/src/pkm/api/distributions/distribution.py | 2 +-
 pkm/src/pkm/build/external_builders.py        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..e950757 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,7 +88,7 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 526008b..b8c3df4 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -8,7 +8,6 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.projects.pyproject_configuration import BuildSystemConfig
-from pkm.utils.dicts import put_if_absent
 from pkm.utils.files import temp_dir
 
 if TYPE_CHECKING:
@@ -95,7 +94,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
     if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:
         current_build_path = dict()
 
-    if not put_if_absent(current_build_path, project.descriptor, True):
+    if project.descriptor in current_build_path:
         def pstr(p: PackageDescriptor):
             return f"{p.name} {p.version}"
 
@@ -103,6 +102,9 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
             f"build cycle detected: "
             f"{' -> '.join(pstr(it) for it in current_build_path.keys())} -> {pstr(project.descriptor)}")
 
+    # the path is not shared: other builds that are required by the same environment are not part of this build's path
+    current_build_path = {**current_build_path, project.descriptor: True}
+
     interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
 
     target_dir.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 45781ce7155c082cd68532e882fb70660c2b3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 26/70] fix: the case of url dependencies is preserved

---
 pkm/src/pkm/api/versions/version.py        | 9 ++++++---
 pkm/src/pkm/api/versions/version_parser.py | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..8887037 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -74,9 +74,12 @@ class UrlVersion(Version):
 
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
-        match = VERSION_URL_RX.match(txt.lower())
-        parsed_url = Url.parse(match.group('url'))
-        return cls(match.group('url'), match.group('repo'), parsed_url.scheme)
+        # only the protocol and scheme are case-insensitive, the rest of the url (e.g., paths and revisions) is not
+        match = VERSION_URL_RX.match(txt)
+        protocol, url = match.group('repo'), match.group('url')
+        scheme, sep, location = url.partition('://')
+        url = f"{scheme.lower()}{sep}{location}"
+        return cls(url, protocol.lower() if protocol else None, Url.parse(url).scheme)
 
 
 @dataclass(frozen=True)
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..282734c 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -11,7 +11,7 @@ def parse_version(version_str: str) -> Version:
     try:
         lowered_vstr = version_str.lower()
         if '://' in lowered_vstr:
-            return UrlVersion.parse(lowered_vstr)
+            return UrlVersion.parse(version_str)
 
         return VersionParser(lowered_vstr).read_version()
     except ValueError:
@@ -20,7 +20,9 @@ def parse_version(version_str: str) -> Version:
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str.lower()).read_specifier()
+    if not specifier_str.lstrip(' (').startswith('@'):  # urls are case-sensitive
+        specifier_str = specifier_str.lower()
+    return VersionParser(specifier_str).read_specifier()
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-- 
2.43.0


From 47e7ecebd7dab7099997e1d6c0c224d580cbc613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 27/70] fix: artifacts become visible in the source build cache
 only when complete and stay there

---
 pkm/src/pkm/build/source_build_cache.py | 33 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index ae5fb75..f38cb15 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -13,7 +13,7 @@ from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import Project
 from pkm.build.external_builders import BuildError
 from pkm.utils.archives import extract_archive
-from pkm.utils.files import temp_dir
+from pkm.utils.files import open_for_replace, temp_dir
 from pkm.utils.hashes import stream
 from pkm.utils.iterators import single_or, single_or_raise
 
@@ -46,14 +46,13 @@ class SourceBuildCache:
         cache_dir = base_cache_dir / dist_hash_value
         metadata_file = cache_dir / "METADATA"
 
-        if metadata_file.exists():
-            if metadata:
+        # an artifact becomes visible in the cache only when it is complete, artifacts of other builds are left alone:
+        # they may be in use (e.g., by installations that run concurrently)
+        if metadata:
+            if metadata_file.exists():
                 return PackageMetadata.load(metadata_file)
-            if wheel := single_or(cache_dir.glob("*.whl"), None):
-                return wheel
-
-        if base_cache_dir.exists():
-            shutil.rmtree(base_cache_dir)
+        elif wheel := single_or(cache_dir.glob("*.whl"), None):
+            return wheel
 
         with temp_dir() as tdir:
             extract_archive(dist.archive, tdir)
@@ -72,20 +71,24 @@ class SourceBuildCache:
                 output = ext_build.build_wheel(
                     project, odir, only_meta=False, target_env=target.env)
 
+            cache_dir.mkdir(parents=True, exist_ok=True)
             if output.is_dir():  # metadata
                 wheel_metadata_path = output / 'METADATA'
                 if not wheel_metadata_path.exists():
                     raise BuildError("build backend did not create a wheel METADATA file")
 
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.copy(wheel_metadata_path, metadata_file)
+                _store(wheel_metadata_path, metadata_file)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
+                wheel_metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
                 if not metadata_file.exists():
-                    metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                    metadata.save(metadata_file)
+                    wheel_metadata.save(metadata_file)
 
                 cached_output = cache_dir / output.name
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.move(output, cached_output)
-                return cached_output
+                _store(output, cached_output)
+                return wheel_metadata if metadata else cached_output
+
+
+def _store(artifact: Path, cached_artifact: Path):
+    with artifact.open('rb') as artifact_fd, open_for_replace(cached_artifact, 'wb') as cached_artifact_fd:
+        shutil.copyfileobj(artifact_fd, cached_artifact_fd)
-- 
2.43.0


From 3224625692f86a3c88ad2193eae7a9f1561e2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 28/70] fix: the output of a process may be in any encoding

---
 pkm/src/pkm/utils/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..08749ac 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -29,7 +29,7 @@ def monitored_run(execution_name: str, cmd: List[str], **subprocess_run_kwargs)
         def decode(line):  # noqa
             nonlocal decode
             if hasattr(line, 'decode'):
-                decode = lambda line: line.decode()  # noqa
+                decode = lambda line: line.decode(errors='replace')  # noqa
             else:
                 decode = lambda line: line  # noqa
 
-- 
2.43.0


From d32fb1ea5d4d86f4c03d8e8b3b9cbde8bc549ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 29/70] fix: distributions become visible in the output folder
 only when complete, and projects with entry points, open python ranges or
 declared packages build

---
 .../api/distributions/wheel_distribution.py   |  2 +-
 pkm/src/pkm/api/projects/project.py           |  3 ++-
 .../api/projects/pyproject_configuration.py   |  4 ++--
 pkm/src/pkm/build/external_builders.py        | 21 ++++++++++++++-----
 pkm/src/pkm/build/pkm_app_builders.py         |  5 +++--
 pkm/src/pkm/build/pkm_builders.py             | 16 +++++++++-----
 pkm/src/pkm/build/source_build_cache.py       | 12 +++--------
 pkm/src/pkm/utils/files.py                    | 10 +++++++++
 8 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index c5484f1..5aeff34 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -77,7 +77,7 @@ class WheelDistribution(Distribution):
         req = project_config.requires_python
 
         min_interpreter: StandardVersion = req.min \
-            if req and isinstance(req, StandardVersionRange) else \
+            if req and isinstance(req, StandardVersionRange) and req.min else \
             StandardVersion((Environment.current().interpreter_version.release[0],))
 
         req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..3dfb010 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -342,7 +342,8 @@ class Project(Package, HasAttachedRepository, Serializable):
 
         metadata = PackageMetadata.from_project_config(self._pyproject.project)
         for distribution in distributions_dir.iterdir():
-            if distribution.is_file():
+            # hidden files are leftovers of interrupted builds
+            if distribution.is_file() and not distribution.name.startswith('.'):
                 publisher.publish(auth_args, metadata, distribution)
 
     @classmethod
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..9b2327d 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -165,13 +165,13 @@ class ProjectConfig:
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index b8c3df4..85eaf82 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -8,7 +8,7 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.projects.pyproject_configuration import BuildSystemConfig
-from pkm.utils.files import temp_dir
+from pkm.utils.files import copy_for_replace, temp_dir
 
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
@@ -69,10 +69,10 @@ def build_sdist(project: "Project", target_dir: Optional[Path] = None,
         command = 'build_sdist'
         mop.notify(BuildPackageHookExecutionEvent(project.descriptor, command))
         sdist_output = _exec_build_cycle_script(
-            project, build_env, buildsys, command, [str(target_dir), None])
+            project, build_env, buildsys, command, [str(_output_dir(tdir)), None])
 
         if sdist_output.status == 'success':
-            return target_dir / sdist_output.result
+            return _move_output(tdir, sdist_output.result, target_dir)
         raise BuildError("build backend did not produced expected sdist", True)
 
 
@@ -151,13 +151,24 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
         command = 'build_editable' if editable else 'build_wheel'
         mop.notify(BuildPackageHookExecutionEvent(project.descriptor, command))
         wheel_output = _exec_build_cycle_script(
-            project, build_env, buildsys, command, [str(target_dir), None, None])
+            project, build_env, buildsys, command, [str(_output_dir(tdir)), None, None])
 
         if wheel_output.status == 'success':
-            return target_dir / wheel_output.result
+            return _move_output(tdir, wheel_output.result, target_dir)
         raise BuildError(f"build backend did not produced expected wheel (project={project.name} {project.version})")
 
 
+def _output_dir(build_dir: Path) -> Path:
+    # the backend does not write into the target directory: its output is visible there only once it is complete
+    (output_dir := build_dir / 'output').mkdir(exist_ok=True)
+    return output_dir
+
+
+def _move_output(build_dir: Path, archive_name: str, target_dir: Path) -> Path:
+    copy_for_replace(_output_dir(build_dir) / archive_name, target_dir / archive_name)
+    return target_dir / archive_name
+
+
 @dataclass
 class _BuildCycleResult:
     status: Literal['success', 'undefined_hook']
diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index 7465ec4..8d68e2e 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -9,7 +9,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.environments.environment_builder import EnvironmentBuilder
 from pkm.api.projects.project import Project
 from pkm.utils.commons import UnsupportedOperationException
-from pkm.utils.files import temp_dir
+from pkm.utils.files import open_for_replace, temp_dir
 
 CONTAINERIZED_APP_SITE_PATH = "__packages__"
 CONTAINERIZED_APP_BIN_PATH = "__bin__"
@@ -43,7 +43,8 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with open_for_replace(wheel_path, 'wb') as wheel_fd, \
+                ZipFile(wheel_fd, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
             build_dir = Path(target.purelib)
             for file in build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(build_dir))
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index cf530d4..ec85390 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -15,7 +15,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import ProjectDirectories, Project
 from pkm.api.projects.pyproject_configuration import ProjectConfig, PyProjectConfiguration
-from pkm.utils.files import temp_dir
+from pkm.utils.files import open_for_replace, path_to, temp_dir
 from pkm.utils.iterators import distinct
 
 
@@ -42,11 +42,12 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
         bc.pyproject.save(data_dir / 'pyproject.toml')
 
         if bc.pyproject.pkm_project.packages:
-            bc.copy_sources(data_dir)
+            bc.copy_sources(data_dir, keep_structure=True)
         else:
             bc.copy_sources(data_dir / 'src')
 
-        with tarfile.open(sdist_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
+        with open_for_replace(sdist_path, 'wb') as sdist_fd, \
+                tarfile.open(sdist_path, 'w:gz', fileobj=sdist_fd, format=tarfile.PAX_FORMAT) as sdist:
             for file in data_dir.glob('*'):
                 sdist.add(file, file.relative_to(bc.build_dir))
 
@@ -87,7 +88,8 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
         wheel_path = target_dir / bc.wheel_file_name()
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with open_for_replace(wheel_path, 'wb') as wheel_fd, \
+                ZipFile(wheel_fd, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
             for file in bc.build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(bc.build_dir))
 
@@ -145,7 +147,7 @@ class _BuildContext:
 
         return di
 
-    def copy_sources(self, dst: Path, link_only: bool = False):
+    def copy_sources(self, dst: Path, link_only: bool = False, keep_structure: bool = False):
         dirs = ProjectDirectories.create(self.pyproject)
 
         if link_only:
@@ -157,6 +159,10 @@ class _BuildContext:
 
         for package_dir in dirs.src_packages:
             destination = dst / package_dir.name
+            if keep_structure and '..' not in (relative := path_to(self.project.path, package_dir)).parts:
+                # the configuration that is stored with the sources refers to the packages by this path
+                destination = dst / relative
+
             if package_dir.exists():
                 shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
             else:
diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index f38cb15..0260693 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -1,5 +1,4 @@
 import hashlib
-import shutil
 from pathlib import Path
 from typing import Any
 
@@ -13,7 +12,7 @@ from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import Project
 from pkm.build.external_builders import BuildError
 from pkm.utils.archives import extract_archive
-from pkm.utils.files import open_for_replace, temp_dir
+from pkm.utils.files import copy_for_replace, temp_dir
 from pkm.utils.hashes import stream
 from pkm.utils.iterators import single_or, single_or_raise
 
@@ -77,7 +76,7 @@ class SourceBuildCache:
                 if not wheel_metadata_path.exists():
                     raise BuildError("build backend did not create a wheel METADATA file")
 
-                _store(wheel_metadata_path, metadata_file)
+                copy_for_replace(wheel_metadata_path, metadata_file)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
                 wheel_metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
@@ -85,10 +84,5 @@ class SourceBuildCache:
                     wheel_metadata.save(metadata_file)
 
                 cached_output = cache_dir / output.name
-                _store(output, cached_output)
+                copy_for_replace(output, cached_output)
                 return wheel_metadata if metadata else cached_output
-
-
-def _store(artifact: Path, cached_artifact: Path):
-    with artifact.open('rb') as artifact_fd, open_for_replace(cached_artifact, 'wb') as cached_artifact_fd:
-        shutil.copyfileobj(artifact_fd, cached_artifact_fd)
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index f26d8c6..8fa168c 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -67,6 +67,16 @@ def open_for_replace(path: Path, mode: str = 'w', **kwargs) -> ContextManager[IO
         raise
 
 
+def copy_for_replace(source: Path, destination: Path):
+    """
+    copy the file `source` into `destination` such that `destination` is never visible partially copied
+    :param source: the file to copy
+    :param destination: the path of the copy, replaced if it already exists
+    """
+    with source.open('rb') as source_fd, open_for_replace(destination, 'wb') as destination_fd:
+        shutil.copyfileobj(source_fd, destination_fd)
+
+
 def path_to(source: Path, destination: Path) -> Path:
     """
     creates a relative path from `source` to `destination`, allowing back stepping ('..')
-- 
2.43.0


From 83a45ebfee3302ef2e6488a444b2106b6ce5c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 30/70] fix: unions and intersections of version specifiers are
 exact, canonical and leave their operands untouched

---
 .../pkm/api/versions/version_specifiers.py    | 284 +++++++-----------
 1 file changed, 105 insertions(+), 179 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..4113059 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -2,7 +2,8 @@ from __future__ import annotations
 
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
-from typing import List, Optional, Set
+from functools import reduce
+from typing import List, Optional, Set, Tuple
 
 from pkm.api.versions.version import Version, StandardVersion, UrlVersion
 from pkm.utils.commons import UnsupportedOperationException
@@ -26,13 +27,14 @@ class VersionSpecifier(ABC):
     def allows_version(self, version: Version) -> bool:
         ...
 
-    @abstractmethod
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        ...
+        return _VersionSet.of(self).union_with(_VersionSet.of(other)).to_specifier()
 
-    @abstractmethod
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        ...
+        if isinstance(other, (_AllowAll, _RestrictAll, VersionsUnion)):
+            return other.intersect_with(self)
+
+        return _VersionSet.of(self).intersect_with(_VersionSet.of(other)).to_specifier()
 
     @abstractmethod
     def inverse(self) -> VersionSpecifier:
@@ -202,30 +204,6 @@ class VersionsUnion(VersionSpecifier):
                     return f"!={s1.max}"
         return seq(segs).str_join('; ')
 
-    def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_AllowAll, _RestrictAll)):
-            return other.union_with(self)
-
-        new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
-
-        while other_segments:
-            os = other_segments.pop()
-            for i, es in enumerate(new_segments):
-                us = os.union_with(es)
-                if us is AllowAllVersions:
-                    return AllowAllVersions
-                if us is RestrictAllVersions:
-                    break
-                if not isinstance(us, VersionsUnion):
-                    other_segments.append(us)
-                    del new_segments[i]
-                    break
-            else:
-                new_segments.append(os)
-
-        return VersionsUnion(new_segments)
-
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
             return other.intersect_with(self)
@@ -258,69 +236,13 @@ class HetroVersionIntersection(VersionSpecifier):
 
         return not isinstance(version, StandardVersion) or self.standard_spec.allows_version(version)
 
-    def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
-            return other.union_with(self)
-
-        if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
-
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
-
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
-
-            return HetroVersionIntersection.create(blacklist, self.standard_spec)
-
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-        raise UnsupportedOperationException()
-
-    def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
-            return other.intersect_with(self)
-
-        if isinstance(other, HetroVersionIntersection):
-            return HetroVersionIntersection.create(  # yes - union the blacklists
-                self.blacklist.union(other.blacklist), self.standard_spec.intersect_with(other.standard_spec))
-
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                if self.standard_spec.allows_version(other.version) and other.version not in self.blacklist:
-                    return other
-                return RestrictAllVersions
-
-            if other.allow:
-                if other.version in self.blacklist:
-                    return RestrictAllVersions
-                return other
-
-            return HetroVersionIntersection.create({*self.blacklist, other.version}, self.standard_spec)
-
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.intersect_with(other))
-
-        raise UnsupportedOperationException()
-
     def inverse(self) -> VersionSpecifier:
-        union = [*(VersionMatch(it) for it in self.blacklist)]
-        if self.standard_spec is not AllowAllVersions:
-            union.append(self.standard_spec.inverse())
-        return VersionsUnion(union)
+        return reduce(
+            lambda union, excluded: union.union_with(VersionMatch(excluded)),
+            self.blacklist, self.standard_spec.inverse())
 
     def __str__(self) -> str:
-        result = ", ".join(f"!={it}" for it in self.blacklist)
+        result = ", ".join(str(VersionMatch(it, False)) for it in sorted(self.blacklist))
         if self.standard_spec is not AllowAllVersions:
             result += f", {self.standard_spec}"
         return result
@@ -415,36 +337,7 @@ class VersionMatch(VersionSpecifier):
             return f'=={v}' if a else f'!={v}'
         return f'==={v}' if a else f'!=={v}'
 
-    def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, HetroVersionIntersection, VersionsUnion)):
-            return other.union_with(self)
-
-        if isinstance(other, VersionMatch):
-            if self == other:
-                return self
-
-            if self.version == other.version:
-                if self.allow != other.allow:
-                    return AllowAllVersions
-
-        if isinstance(other, StandardVersionRange):
-            if other.allows_version(self.version):
-                return other if self.allow else AllowAllVersions
-
-            if not self.allow:
-                return self
-
-            if not other.includes_min and self.version == other.min:
-                return StandardVersionRange(other.min, other.max, True, other.includes_max)
-            if not other.includes_max and self.version == other.max:
-                return StandardVersionRange(other.min, other.max, other.includes_min, True)
-
-        return VersionsUnion([self, other])
-
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, HetroVersionIntersection, VersionsUnion)):
-            return other.intersect_with(self)
-
         if isinstance(other, VersionMatch):
             if self == other:
                 return self
@@ -461,15 +354,8 @@ class VersionMatch(VersionSpecifier):
                 if my_ver == ot_ver:
                     return RestrictAllVersions
                 return self if self.allow else other
-            return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
-
-        if isinstance(other, StandardVersionRange) and isinstance(self.version, StandardVersion):
-            if other.allows_version(self.version):
-                if self.allow:
-                    return self
-                return HetroVersionIntersection({self.version}, other)
 
-        return RestrictAllVersions if self.allow else other
+        return super().intersect_with(other)
 
 
 @dataclass(unsafe_hash=True)
@@ -557,71 +443,111 @@ class StandardVersionRange(VersionSpecifier):
 
         return res
 
-    def _union_with(self, other: StandardVersionRange) -> VersionSpecifier:
-        if other < self:
-            return other._union_with(self)
-
-        imin, imax = self.includes_min, other.includes_max
-        if not other.min or not self.max or other.min < self.max:
-            if self.min == other.min:
-                imin = self.includes_min or other.includes_min
-            if self.max == other.max:
-                imax = self.includes_max or other.includes_max
-        elif (not self.includes_max and not other.includes_min) or other.min != self.max:
-            return VersionsUnion([self, other])
+    def allows_version(self, version: Version) -> bool:
+        min_, max_ = self.min, self.max
+        if (min_ is not None and self.includes_min and min_ == version) \
+                or (max_ is not None and self.includes_max and max_ == version):
+            return True
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        if version.is_post_release() and (min_ is None or not min_.is_post_release()):
+            return False
 
-    def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-            return other.union_with(self)
+        return (min_ is None or min_ < version) and (max_ is None or version < max_)
 
-        if isinstance(other, StandardVersionRange):
-            if self == other:
-                return self
-            return self._union_with(other)
 
-        raise NotImplemented()
+# a position in the order of the standard versions: just before (0) or just after (1) some version,
+# the rank is used to position the start (-1) and the end (1) of this order
+_Position = Tuple[int, Optional[StandardVersion], int]
+_START: _Position = (-1, None, 0)
+_END: _Position = (1, None, 0)
 
-    def _intersect_with(self, other: StandardVersionRange) -> VersionSpecifier:
-        if other < self:
-            return other._intersect_with(self)
 
-        if not other.min or not self.max or other.min < self.max:
-            imin, imax = other.includes_min, self.includes_max
-            if self.min == other.min:
-                imin = self.includes_min and other.includes_min
-            if self.max == other.max:
-                imax = self.includes_max and other.includes_max
+@dataclass
+class _VersionSet:
+    """
+    the versions that are allowed by a specifier: sorted disjoint ranges of standard versions and a (possibly
+    complemented) set of other versions, which have no order.
+    """
 
-            max_ = self.max
-            if not max_ or (other.max and self.max > other.max):
-                max_, imax = other.max, other.includes_max
+    ranges: List[Tuple[_Position, _Position]]
+    others: Set[Version]
+    others_excluded: bool
 
-            return VersionSpecifier.create_range(other.min, max_, imin, imax)
-        if self.includes_max and other.includes_min and self.max == other.min:
-            return VersionMatch(self.max, True)
+    @classmethod
+    def of(cls, spec: VersionSpecifier) -> _VersionSet:
+        if isinstance(spec, _AllowAll):
+            return cls([(_START, _END)], set(), True)
+        if isinstance(spec, _RestrictAll):
+            return cls([], set(), False)
+        if isinstance(spec, VersionMatch):
+            v = spec.version
+            if not isinstance(v, StandardVersion):
+                return cls([] if spec.allow else [(_START, _END)], {v}, not spec.allow)
+            if spec.allow:
+                return cls([((0, v, 0), (0, v, 1))], set(), False)
+            return cls([(_START, (0, v, 0)), ((0, v, 1), _END)], set(), True)
+        if isinstance(spec, StandardVersionRange):
+            return cls([((0, spec.min, 0 if spec.includes_min else 1) if spec.min else _START,
+                         (0, spec.max, 1 if spec.includes_max else 0) if spec.max else _END)], set(), False)
+        if isinstance(spec, HetroVersionIntersection):
+            return reduce(
+                lambda result, excluded: result.intersect_with(cls.of(VersionMatch(excluded, False))),
+                spec.blacklist, cls.of(spec.standard_spec))
+        if isinstance(spec, VersionsUnion):
+            return reduce(cls.union_with, (cls.of(it) for it in spec.segments))
 
-        return RestrictAllVersions
+        raise UnsupportedOperationException()
 
-    def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-            return other.intersect_with(self)
+    def union_with(self, other: _VersionSet) -> _VersionSet:
+        ranges: List[Tuple[_Position, _Position]] = []
+        for start, end in sorted([*self.ranges, *other.ranges]):
+            if ranges and start <= ranges[-1][1]:
+                ranges[-1] = (ranges[-1][0], max(end, ranges[-1][1]))
+            else:
+                ranges.append((start, end))
+
+        if self.others_excluded and other.others_excluded:
+            return _VersionSet(ranges, self.others & other.others, True)
+        if self.others_excluded or other.others_excluded:
+            excluded, included = (self, other) if self.others_excluded else (other, self)
+            return _VersionSet(ranges, excluded.others - included.others, True)
+        return _VersionSet(ranges, self.others | other.others, False)
+
+    def intersect_with(self, other: _VersionSet) -> _VersionSet:
+        ranges = [(max(s1, s2), min(e1, e2)) for s1, e1 in self.ranges for s2, e2 in other.ranges
+                  if max(s1, s2) < min(e1, e2)]
+
+        if self.others_excluded and other.others_excluded:
+            return _VersionSet(ranges, self.others | other.others, True)
+        if self.others_excluded or other.others_excluded:
+            excluded, included = (self, other) if self.others_excluded else (other, self)
+            return _VersionSet(ranges, included.others - excluded.others, False)
+        return _VersionSet(ranges, self.others & other.others, False)
+
+    def to_specifier(self) -> VersionSpecifier:
+        if self.ranges == [(_START, _END)] and not (self.others_excluded and self.others):
+            return AllowAllVersions
 
-        if isinstance(other, StandardVersionRange):
-            if self == other:
-                return self
+        # ranges that are separated by a single version are a single range which excludes this version
+        hulls: List[Tuple[_Position, _Position, Set[Version]]] = []
+        for start, end in self.ranges:
+            if hulls and hulls[-1][1][:2] == start[:2]:
+                hulls[-1] = (hulls[-1][0], end, {*hulls[-1][2], start[1]})
+            else:
+                hulls.append((start, end, set()))
 
-            return self._intersect_with(other)
-        raise NotImplemented()
+        if self.others_excluded:
+            return HetroVersionIntersection.create(
+                {*self.others, *(excluded for hull in hulls for excluded in hull[2])}, AllowAllVersions)
 
-    def allows_version(self, version: Version) -> bool:
-        min_, max_ = self.min, self.max
-        if (min_ is not None and self.includes_min and min_ == version) \
-                or (max_ is not None and self.includes_max and max_ == version):
-            return True
+        if hulls and hulls[0][:2] == (_START, _END):
+            hulls = [(start, end, set()) for start, end in self.ranges]
 
-        if version.is_post_release() and (min_ is None or not min_.is_post_release()):
-            return False
+        segments: List[VersionSpecifier] = [VersionMatch(it) for it in self.others]
+        for start, end, excluded in hulls:
+            segments.append(HetroVersionIntersection.create(excluded, VersionSpecifier.create_range(
+                start[1], end[1], start != _START and start[2] == 0, end != _END and end[2] == 1)))
 
-        return (min_ is None or min_ < version) and (max_ is None or version < max_)
+        if not segments:
+            return RestrictAllVersions
+        return segments[0] if len(segments) == 1 else VersionsUnion(segments)
-- 
2.43.0


From 9cab2df7d8495da8454d89942546ce5f07b5475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 31/70] fix: all the requirements of a package version hold,
 spellings of a package name are the same package

---
 pkm/src/pkm/resolution/dependency_resolver.py | 29 ++++++++++---------
 pkm/src/pkm/resolution/pubgrub.py             | 24 ++++++++++-----
 2 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..df6bb43 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-from dataclasses import dataclass, replace
-from typing import List, Dict, Optional, TYPE_CHECKING, cast
+from dataclasses import dataclass, field, replace
+from typing import List, Dict, Optional, Tuple, TYPE_CHECKING, cast
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package import PackageDescriptor, Package
@@ -43,7 +43,7 @@ def resolve_dependencies(root: Dependency, target: "PackageInstallationTarget",
         if pkg.extras:
             continue
 
-        result.append(problem.opened_packages[PackageDescriptor(pkg.name, version)])
+        result.append(problem.opened_packages[(pkg.key, version)])
 
     return result
 
@@ -55,12 +55,14 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): override
+            for name, override in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
 
-        self.opened_packages: Dict[PackageDescriptor, Package] = {}
+        self.opened_packages: Dict[Tuple[str, Version], Package] = {}
         self._prefetched_packages: Dict[_Pkg, Promise[List[Package]]] = {}
 
     def _prefetch(self, package: _Pkg) -> Promise[List[Package]]:
@@ -68,7 +70,7 @@ class _PkmPackageInstallationProblem(Problem):
                           lambda: Promise.execute(self._threads, self._repo.list, package.name, self._target.env))
 
     def get_dependencies(self, package: _Pkg, version: Version) -> List[Term]:
-        descriptor = PackageDescriptor(package.name, version)
+        descriptor = (package.key, version)
 
         try:
             if isinstance(version, UrlVersion) and descriptor not in self.opened_packages:
@@ -82,7 +84,7 @@ class _PkmPackageInstallationProblem(Problem):
                     self._prefetch(_Pkg.of(d))
 
         except (ValueError, IOError, BuildError) as e:
-            raise MalformedPackageException(str(descriptor)) from e
+            raise MalformedPackageException(f"{package} {version}") from e
 
         result: List[Term] = []
 
@@ -91,7 +93,7 @@ class _PkmPackageInstallationProblem(Problem):
 
         for d in dependencies:
             if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+                if o := self._dependency_overrides.get(_Pkg.of(d).key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -104,8 +106,8 @@ class _PkmPackageInstallationProblem(Problem):
         # make versions unique
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
-        for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+        for p in packages:
+            self.opened_packages[(package.key, p.version)] = p
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
@@ -115,7 +117,8 @@ class _PkmPackageInstallationProblem(Problem):
 
 @dataclass(frozen=True, eq=True)
 class _Pkg:
-    name: str
+    name: str = field(compare=False)  # as spelled by the first dependency that required this package
+    key: str
     extras: Optional[List[str]]
 
     def __str__(self):
@@ -131,7 +134,7 @@ class _Pkg:
         return str(self) < str(other)
 
     def __hash__(self):
-        hb = HashBuilder().regular(self.name)
+        hb = HashBuilder().regular(self.key)
         if self.extras:
             hb.ordered_seq(self.extras)
 
@@ -139,4 +142,4 @@ class _Pkg:
 
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        return _Pkg(d.package_name.lower(), PackageDescriptor.package_name_key(d.package_name), d.extras)
diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..2a40756 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -127,7 +127,10 @@ class PartialSolution:
     def _decision_level(self) -> int:
         return max(0, len(self._decisions) - 1)
 
-    def requiering_decision(self, package: PKG):
+    def requiering_decision(self, package: PKG) -> Optional[Assignment]:
+        if package == self._root_package:
+            return None  # the root package is required by no decision
+
         decision_level = self._required_packages[package]
         result = next((acc for acc in self._decisions.values() if acc.decision_level == decision_level), None)
         assert result, f"requiring decision could not be found for package {package} " \
@@ -259,8 +262,8 @@ class IncompatibilitySatisfaction:
         satisfier = satisfiers.pop(satisfier_index)
 
         for term in incompatibility.terms:
-            if solution.requires(term.package):
-                satisfiers.append(solution.requiering_decision(term.package))
+            if solution.requires(term.package) and (decision := solution.requiering_decision(term.package)):
+                satisfiers.append(decision)
 
             if term.package == satisfier.term.package:
                 if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
@@ -477,11 +480,16 @@ class _PackageVersion:
         return cast(VersionMatch, self.term.constraint).version
 
     def fetch_dependencies_info(self, problem: Problem):
-        if not self.dependencies:
-            version_dependencies = problem.get_dependencies(self.term.package, self.version)
-            self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+        if self.dependencies is None:
+            version_dependencies: Dict[PKG, Term] = {}
+            for d in problem.get_dependencies(self.term.package, self.version):
+                if previous := version_dependencies.get(d.package):
+                    d = previous.intersect(d)  # a package may be required several times, all the terms must hold
+                if d.constraint is RestrictAllVersions:
+                    raise MalformedPackageException(f"{self.term} contains contradicting requirements for {d.package}")
+                version_dependencies[d.package] = d
+
+            self.dependencies = {package: PackageDependency(d) for package, d in version_dependencies.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
-- 
2.43.0


From 29821c79c535e33f8ba33ad71601f3f88f577d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 32/70] fix: dependency resolution terminates, finds existing
 solutions and handles malformed or self requiring packages

---
 .../pkm/api/versions/version_specifiers.py    |  10 +-
 pkm/src/pkm/resolution/pubgrub.py             | 157 ++++++++----------
 2 files changed, 71 insertions(+), 96 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 4113059..03a3a83 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -525,9 +525,6 @@ class _VersionSet:
         return _VersionSet(ranges, self.others & other.others, False)
 
     def to_specifier(self) -> VersionSpecifier:
-        if self.ranges == [(_START, _END)] and not (self.others_excluded and self.others):
-            return AllowAllVersions
-
         # ranges that are separated by a single version are a single range which excludes this version
         hulls: List[Tuple[_Position, _Position, Set[Version]]] = []
         for start, end in self.ranges:
@@ -536,12 +533,9 @@ class _VersionSet:
             else:
                 hulls.append((start, end, set()))
 
-        if self.others_excluded:
-            return HetroVersionIntersection.create(
-                {*self.others, *(excluded for hull in hulls for excluded in hull[2])}, AllowAllVersions)
-
         if hulls and hulls[0][:2] == (_START, _END):
-            hulls = [(start, end, set()) for start, end in self.ranges]
+            return HetroVersionIntersection.create(
+                hulls[0][2] | self.others if self.others_excluded else hulls[0][2], AllowAllVersions)
 
         segments: List[VersionSpecifier] = [VersionMatch(it) for it in self.others]
         for start, end, excluded in hulls:
diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index 2a40756..9fb1cc5 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -43,17 +43,28 @@ class MalformedPackageException(Exception):
 class Term:
     package: PKG
     constraint: VersionSpecifier
+    optional: bool = False  # True if this term also holds when the package is not selected at all
 
     def negate(self) -> "Term":
-        return Term(self.package, self.constraint.inverse())
+        return Term(self.package, self.constraint.inverse(), not self.optional)
 
     def intersect(self, other: "Term") -> "Term":
         assert self.package == other.package, 'cannot intersect terms of different packages'
-        return Term(self.package, self.constraint.intersect_with(other.constraint))
+        return Term(
+            self.package, self.constraint.intersect_with(other.constraint), self.optional and other.optional)
 
-    def satisfies(self, constraint: VersionSpecifier) -> bool:
-        """self ⊆ term"""
-        return constraint.allows_all(self.constraint)
+    def unite(self, other: "Term") -> "Term":
+        assert self.package == other.package, 'cannot unite terms of different packages'
+        return Term(self.package, self.constraint.union_with(other.constraint), self.optional or other.optional)
+
+    def satisfies(self, other: "Term") -> bool:
+        """self ⊆ other"""
+        return (other.optional or not self.optional) and \
+               (self.constraint is RestrictAllVersions or other.constraint.allows_all(self.constraint))
+
+    def contradicts(self, other: "Term") -> bool:
+        """self ∩ other = ∅"""
+        return not (self.optional and other.optional) and not self.constraint.allows_any(other.constraint)
 
     @classmethod
     def join(cls, package: PKG, terms: Iterable["Term"]) -> "Term":
@@ -67,14 +78,12 @@ class Term:
         if not next_term:
             return first_term
 
-        package = first_term.package
-        constraint = first_term.constraint
-
+        result = first_term
         while next_term is not None:
-            constraint = constraint.intersect_with(next_term.constraint)
+            result = result.intersect(next_term)
             next_term = next(terms_iter, None)
 
-        return cls(package, constraint)
+        return result
 
     def __repr__(self):
         return f"[{self.package} {self.constraint}]"
@@ -90,7 +99,7 @@ class Assignment:
     decision_level: int
     order_index: int
     cause: Optional["Incompatibility"]
-    accumulated: VersionSpecifier
+    accumulated: Term
 
     def is_decision(self) -> bool:
         return self.cause is None
@@ -127,16 +136,6 @@ class PartialSolution:
     def _decision_level(self) -> int:
         return max(0, len(self._decisions) - 1)
 
-    def requiering_decision(self, package: PKG) -> Optional[Assignment]:
-        if package == self._root_package:
-            return None  # the root package is required by no decision
-
-        decision_level = self._required_packages[package]
-        result = next((acc for acc in self._decisions.values() if acc.decision_level == decision_level), None)
-        assert result, f"requiring decision could not be found for package {package} " \
-                       f"- no decider for level {decision_level}"
-        return result
-
     def backtrack(self, decision_level: int):
         # print(f"backtrack to decision_level: {decision_level}")
 
@@ -169,22 +168,19 @@ class PartialSolution:
             if package not in required_packages:
                 required_packages[package] = self._decision_level
 
-    def requires(self, package: PKG) -> bool:
-        return package in self._required_packages
-
     def make_assignment(self, assignment_value: Term, cause: Optional["Incompatibility"] = None):
         package_assignments = self.assignments_by_package[assignment_value.package]
 
-        accumulated_constraint = assignment_value.constraint
+        accumulated = assignment_value
         if package_assignments:
-            accumulated_constraint = package_assignments[-1].accumulated.intersect_with(accumulated_constraint)
+            accumulated = package_assignments[-1].accumulated.intersect(accumulated)
 
         dlevel = self._decision_level
 
         if cause is None and assignment_value.package != self._root_package:
             dlevel += 1
 
-        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated_constraint)
+        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated)
 
     def assign(self, assignment_value: Union[Term, Assignment], cause: Optional["Incompatibility"] = None):
         assignment = self.make_assignment(assignment_value, cause) \
@@ -231,19 +227,23 @@ class IncompatibilitySatisfaction:
     def find_satisfier(
             solution: "PartialSolution", term: Term, next_satisfier: Optional[Assignment] = None
     ) -> Optional[Assignment]:
+        """
+        :param solution: the solution to look in
+        :param term: the term that should be satisfied
+        :param next_satisfier: if given, the assignment that satisfies the given `term` together with the result
+        :return: the earliest assignment from which (together with `next_satisfier`, if given) the `term` is satisfied
+        """
+
+        for assignment in solution.assignments_by_package[term.package]:
+            if assignment is next_satisfier:
+                return None
+
+            acc = assignment.accumulated
+            if next_satisfier:
+                acc = acc.intersect(next_satisfier.term)
+            if acc.satisfies(term):
+                return assignment
 
-        if package_assignments := solution.assignments_by_package[term.package]:
-            if term.constraint.allows_all(package_assignments[-1].accumulated):
-                for assignment in package_assignments:
-                    if assignment is next_satisfier:
-                        return None
-
-                    acc = assignment.accumulated
-                    if next_satisfier:
-                        if term.constraint.allows_all(acc.intersect_with(next_satisfier.term.constraint)):
-                            return assignment
-                    elif term.constraint.allows_all(acc):
-                        return assignment
         return None
 
     @classmethod
@@ -261,13 +261,10 @@ class IncompatibilitySatisfaction:
         satisfier_index = argmax(satisfiers, key=lambda s: s.order_index)
         satisfier = satisfiers.pop(satisfier_index)
 
-        for term in incompatibility.terms:
-            if solution.requires(term.package) and (decision := solution.requiering_decision(term.package)):
-                satisfiers.append(decision)
-
-            if term.package == satisfier.term.package:
-                if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
-                    satisfiers.append(prev_satisfier)
+        term = incompatibility.term_for(satisfier.term.package)
+        if not satisfier.term.satisfies(term):
+            if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
+                satisfiers.append(prev_satisfier)
 
         prev_satisfier_index = argmax(satisfiers, key=lambda s: s.order_index) if satisfiers else None
 
@@ -302,22 +299,16 @@ class Incompatibility:
 
         for term in self.terms:
             package_assignments = assignments[term.package]
-            if package_assignments and package_assignments[-1].accumulated is RestrictAllVersions:
-                return IncompatibilitySatisfaction.create_unsatisfied(self)
+            acc = package_assignments[-1].accumulated if package_assignments else None
 
-        for term in self.terms:
-            satisfier = IncompatibilitySatisfaction.find_satisfier(solution, term)
-            if not satisfier and (assignments := solution.assignments_by_package[term.package]) \
-                    and not assignments[-1].accumulated.allows_any(term.constraint):
+            if acc and acc.satisfies(term):
+                satisfiers.append(IncompatibilitySatisfaction.find_satisfier(solution, term))
+            elif acc and acc.contradicts(term):
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
-
-            if not satisfier:
-                if not undecided_term:
-                    undecided_term = term
-                else:
-                    return IncompatibilitySatisfaction.create_unsatisfied(self)
+            elif not undecided_term:
+                undecided_term = term
             else:
-                satisfiers.append(satisfier)
+                return IncompatibilitySatisfaction.create_unsatisfied(self)
 
         if undecided_term:
             return IncompatibilitySatisfaction.create_almost_full(self, undecided_term)
@@ -446,17 +437,6 @@ class DependencyIncompatibility(Incompatibility):
         self.dependency = dependency
         self.added = False
 
-    def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        if dependant_assignments := solution.assignments_by_package[self.dependant.package]:
-            dependant_assignment = dependant_assignments[-1]
-            acc = dependant_assignment.accumulated
-
-            if acc.allows_any(self.dependant.constraint) or \
-                    (acc is not RestrictAllVersions and self.dependant.constraint.allows_all(acc)):
-                return super().check_satisfaction(solution)
-
-        return IncompatibilitySatisfaction.create_unsatisfied(self)
-
     def update_dependant(self, new_dependant: Term):
         package = str(new_dependant.package)
         assert package == str(self.dependant.package), \
@@ -483,9 +463,11 @@ class _PackageVersion:
         if self.dependencies is None:
             version_dependencies: Dict[PKG, Term] = {}
             for d in problem.get_dependencies(self.term.package, self.version):
+                if d.package == self.term.package and d.constraint.allows_version(self.version):
+                    continue  # this version already satisfies its own requirement
                 if previous := version_dependencies.get(d.package):
                     d = previous.intersect(d)  # a package may be required several times, all the terms must hold
-                if d.constraint is RestrictAllVersions:
+                if d.constraint is RestrictAllVersions or d.package == self.term.package:
                     raise MalformedPackageException(f"{self.term} contains contradicting requirements for {d.package}")
                 version_dependencies[d.package] = d
 
@@ -517,8 +499,9 @@ class _PackageVersion:
                              incompatibility.dependant.constraint.union_with(self.effective_constraint_range)))
                     continue
 
-            nt = Term(self.term.package, self.effective_constraint_range)
-            dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
+            if not dependency.incompatibility:  # otherwise, this version was already considered before
+                nt = Term(self.term.package, self.effective_constraint_range)
+                dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
             result.append(dependency.incompatibility)
 
         return result
@@ -574,6 +557,7 @@ class Solver(Generic[PKG_T]):
         self._package_versions: Dict[PKG, List[_PackageVersion]] = {}
         self._package_availability_incompatibilities: Dict[PKG, Incompatibility] = {}
         self._package_trouble_level: Counter[PKG] = Counter()
+        self._minor_adjustments: Set[Term] = set()
 
         # incompatibilities by package
         self._incompatibilities: DefaultDict[PKG, List[Incompatibility]] = defaultdict(list)
@@ -587,7 +571,8 @@ class Solver(Generic[PKG_T]):
         # print(f'adding incompatibility: {incompatibility}')
         for term in incompatibility.terms:
             term_incompatibilities = self._incompatibilities[term.package]
-            if incompatibility not in term_incompatibilities:
+            # equality is not enough: equal incompatibilities may be updated differently
+            if not any(it is incompatibility for it in term_incompatibilities):
                 term_incompatibilities.append(incompatibility)
 
     def solve(self) -> Dict[PKG_T, Version]:
@@ -673,21 +658,13 @@ class Solver(Generic[PKG_T]):
                 if term.package != satisfier.term.package}
 
             assert satisfier.cause != incompatibility  # this massup the error reporting...
-            if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
-                prior_cause_terms.add(
-                    Term(satisfier.term.package,
-                         # satisfier.term.constraint.difference_from(term.constraint).inverse()))
-                         satisfier.accumulated.difference_from(term.constraint).inverse()))
+            if not satisfier.term.satisfies(term):
+                prior_cause_terms.add(term.unite(satisfier.term.negate()))
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
                 list(prior_cause_terms), internal_cause=(satisfier.cause, incompatibility))
 
-            if len(prior_cause_terms) == 0:
-                self._solution.backtrack(0)
-                self._solution.assign(Term(term.package, RestrictAllVersions), cause=incompatibility)
-                return term.package
-
             # print(f"root cause: {incompatibility}")
 
             if not self._is_tautology(incompatibility):
@@ -736,7 +713,7 @@ class Solver(Generic[PKG_T]):
             dependency_assignments = self._solution.assignments_by_package[dependency.package]
             dependency_requirement = dependency.constraint.inverse()
             if len(dependency_assignments) > 1 and dependency_assignments[-1].is_decision():
-                actual_limitation = dependency_assignments[-2].accumulated
+                actual_limitation = dependency_assignments[-2].accumulated.constraint
                 if actual_limitation.allows_any(dependency_requirement):
                     # print(f"{package} is conflicting with {dependency.package}, it requires that ", end='')
                     # print(f"{dependency_requirement} but it actual limitation in solution is '{actual_limitation}'")
@@ -764,7 +741,7 @@ class Solver(Generic[PKG_T]):
         # print(f"undecided packages: {undecided_packages}")
         package_matching_versions: Dict[PKG, List[_PackageVersion]] = {}
         for package in undecided_packages:
-            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
             if isinstance(acc_assignment, VersionMatch) and acc_assignment.allow and \
                     not isinstance(acc_assignment.version, StandardVersion):
@@ -788,7 +765,7 @@ class Solver(Generic[PKG_T]):
 
         while True:
             if not versions:
-                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
                 if ic := self._package_availability_incompatibilities.get(package):
                     ic.update_inavailability(ic.terms[0].constraint.union_with(acc_assignment))
@@ -822,7 +799,11 @@ class Solver(Generic[PKG_T]):
         conflicts = list(filter(lambda it: it.check_satisfaction(self._solution).is_full(), incompatibilities))
         assignments[package].pop()
 
-        if conflicts and self._attempt_minor_adjustments(package, conflicts):
+        # an adjustment learns nothing, so it is attempted once per version - otherwise packages
+        # that disagree about each other may adjust one another forever
+        if conflicts and assignment.term not in self._minor_adjustments \
+                and self._attempt_minor_adjustments(package, conflicts):
+            self._minor_adjustments.add(assignment.term)
             conflicts = []
             # rebuilding assignmenr: decision level might have changed due to the minor adjustments
             assignment = self._solution.make_assignment(Term(package, VersionMatch(version.version)), None)
-- 
2.43.0


From 4330b706f1f2f3efc8b5eb01468e8a8851dccb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 33/70] fix: installations keep all the user requests satisfied
 and recorded, package names may be spelled in any form

---
 .../pkm/api/packages/package_installation.py  | 116 ++++++------------
 1 file changed, 37 insertions(+), 79 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..2782a66 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -1,12 +1,11 @@
 from __future__ import annotations
 
-from _ast import Set
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
 from dataclasses import dataclass
 from enum import Enum
 from pathlib import Path
-from typing import List, Dict, Optional, Union, Set, TYPE_CHECKING
+from typing import List, Dict, Optional, Union, Set, FrozenSet, Tuple, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -14,7 +13,7 @@ from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_monitors import PackageOperationMonitoredOp
 from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.packages.site_packages import SitePackages
-from pkm.api.repositories.repository import Repository, AbstractRepository
+from pkm.api.repositories.repository import Repository
 from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch, StandardVersionRange, AllowAllVersions
 from pkm.resolution.dependency_resolver import resolve_dependencies
@@ -26,6 +25,7 @@ from pkm.utils.iterators import first_or_none
 from pkm.utils.multiproc import ProcessPoolExecutor
 from pkm.utils.promises import Promise, await_all_promises_or_cancel
 from pkm.utils.properties import cached_property, clear_cached_properties
+from pkm.utils.sets import add_if_absent
 
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
@@ -72,25 +72,33 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
-        for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+        preinstalled_packages = {p.name_key: p for p in self.site_packages.installed_packages()}
+        keys_to_remove = {PackageDescriptor.package_name_key(p) for p in packages_to_remove}
 
-        user_request = _UserRequestPackage(list(requested_deps.values()))
-        installation_repo = _RemovalRepository(preinstalled_packages, user_request)
+        # find everything that is required by the remaining user requests
+        kept: Dict[str, InstalledPackage] = {}
+        visited: Set[Tuple[str, FrozenSet[str]]] = set()
+        required = [p.user_request for key, p in preinstalled_packages.items()
+                    if p.user_request and key not in keys_to_remove]
 
-        installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
-        InstallationPlan(self, installation, {}).execute()
+        while required:
+            dependency = required.pop()
+            key = dependency.package_name_key
+            if (package := preinstalled_packages.get(key)) \
+                    and add_if_absent(visited, (key, frozenset(dependency.extras or ()))):
+                kept[key] = package
+                required.extend(package.dependencies(self, dependency.extras))
 
-        kept = {p.name for p in installation}
+        InstallationPlan(self, list(kept.values()), {}).execute()
 
-        for p in packages_to_remove:
-            if p in kept:
-                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
+        for key in keys_to_remove:
+            if package := kept.get(key):
+                package.dist_info.unmark_as_user_requested()
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return {
+            p for p in packages_to_remove
+            if (key := PackageDescriptor.package_name_key(p)) in preinstalled_packages and key not in kept}
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
@@ -107,7 +115,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         plan = self.plan_installation(
             dependencies, repository, user_requested, dependencies_override, updates
         )
-        plan.store_modes = store_mode
+        plan.store_modes = {
+            PackageDescriptor.package_name_key(name): mode for name, mode in (store_mode or {}).items()}
         plan.execute()
 
     def force_remove(self, package: str) -> bool:
@@ -146,8 +155,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        updates = set(updates or ())
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
+        updates = {PackageDescriptor.package_name_key(u) for u in updates or ()}
+        preinstalled_packages = list(self.site_packages.installed_packages())
+        retained_packages = [p for p in preinstalled_packages if p.name_key not in updates]
         pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         unspecified_spec_packages = \
             unspecified_spec_packages or [
@@ -157,7 +167,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         unspecified_spec_packages = set(unspecified_spec_packages)
 
         new_deps = {d.package_name_key: d for d in dependencies}
-        all_deps = {**pre_requested_deps, **new_deps}
+        user_request = _UserRequestPackage(list({**pre_requested_deps, **new_deps}.values()))
 
         run_slow_path = False
         installation = None
@@ -165,9 +175,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         try:
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
-            user_request = _UserRequestPackage(list(new_deps.values()))
             installation_repo = _InstallationRepository(
-                repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
+                repository, retained_packages, user_request, unspecified_spec_packages, True)
 
             installation = resolve_dependencies(
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
@@ -183,11 +192,10 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         if run_slow_path:
             # if we cannot we try the slow path in which we allow preinstalled packages dependencies to be updated
-            user_request = _UserRequestPackage(list(all_deps.values()))
             installation_repo = _InstallationRepository(
-                repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
+                repository, retained_packages, user_request, unspecified_spec_packages, False)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
@@ -212,7 +220,8 @@ class InstallationPlan:
         self.store_modes: Optional[Dict[str, StoreMode]] = None
 
     def selected_package(self, name: str) -> Optional[Package]:
-        return first_or_none(it for it in self.packages if it.name == name)
+        name_key = PackageDescriptor.package_name_key(name)
+        return first_or_none(it for it in self.packages if it.name_key == name_key)
 
     def compute_operations_for_target(
             self, target: Optional[PackageInstallationTarget] = None) -> Dict[Package, PackageOperation]:
@@ -360,57 +369,6 @@ class _UserRequestPackage(Package):
         return Dependency(self.name, VersionMatch(self.version))
 
 
-class _RemovalRepository(AbstractRepository):
-
-    def __init__(self, preinstalled: List[InstalledPackage], user_request: Package):
-        super().__init__('removal repository')
-        self._preinstalled: Dict[str, InstalledPackage] = {
-            p.name_key: p
-            for p in preinstalled
-        }
-
-        self._user_request = user_request
-
-    def _do_match(self, dependency: "Dependency", env: Environment) -> List[Package]:
-        if dependency.package_name == self._user_request.name:
-            return [self._user_request]
-
-        match = self._preinstalled.get(dependency.package_name_key)
-        return [_RemovalPackage(match)] if match else []
-
-
-class _RemovalPackage(Package, Serializable):
-
-    def __init__(self, p: InstalledPackage):
-        self.package = p
-
-    def __getstate__(self):
-        return [self.package]
-
-    def __setstate__(self, state):
-        self.__init__(*state)
-
-    @property
-    def descriptor(self) -> PackageDescriptor:
-        return self.package.descriptor
-
-    def dependencies(
-            self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
-        sitep = target.site_packages
-        return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
-
-    def is_compatible_with(self, env: "Environment") -> bool:
-        return self.package.is_compatible_with(env)
-
-    def install_to(self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
-                   store_mode: StoreMode = StoreMode.AUTO):
-        raise UnsupportedOperationException()
-
-    def update_at(self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
-                  store_mode: StoreMode = StoreMode.AUTO):
-        self.package.update_at(target, user_request, store_mode)
-
-
 @delegate(Repository, '_repo')
 class _InstallationRepository(Repository, ABC):
     def __init__(
@@ -436,10 +394,10 @@ class _InstallationRepository(Repository, ABC):
             if self._fast_plan_mode:
                 return [installed]
 
-        packages = self._repo.match(dependency, env)
+        packages = list(self._repo.match(dependency, env))
         if installed:
             packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
-        elif self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
+        elif packages and self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
                 unspecified_limit = VersionMatch(max_version_package.version)
-- 
2.43.0


From 112578abbcd5ce990963e8439cf2a554eae8b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 34/70] fix: a package that could not be removed by an
 installation plan stays complete

---
 pkm/src/pkm/api/packages/package_installation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 2782a66..40aab97 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -20,6 +20,7 @@ from pkm.resolution.dependency_resolver import resolve_dependencies
 from pkm.resolution.pubgrub import UnsolvableProblemException
 from pkm.utils.commons import UnsupportedOperationException
 from pkm.utils.delegations import delegate
+from pkm.utils.files import CopyTransaction
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import first_or_none
 from pkm.utils.multiproc import ProcessPoolExecutor
@@ -336,7 +337,7 @@ class _PackageOperationTask:
             promise = Promise.execute(
                 executor, _po_execute, package, "update_at", target, store_mode=store_mode, user_request=user_request)
         elif operation == PackageOperation.REMOVE:
-            promise = Promise.execute(executor, _po_execute, package, "uninstall")
+            promise = Promise.execute(executor, _po_remove, package)
 
         if not promise:
             raise UnsupportedOperationException(f"unsupported package operation {self._operation}")
@@ -348,6 +349,11 @@ def _po_execute(package: Package, mtd: str, *args, **kwargs):
     getattr(package, mtd)(*args, **kwargs)
 
 
+def _po_remove(package: InstalledPackage):
+    with CopyTransaction() as transaction:  # if the removal fails, the package stays complete
+        package.uninstall(transaction)
+
+
 class _UserRequestPackage(Package):
     def __init__(self, request: List["Dependency"]):
         self._desc = PackageDescriptor("installation request", StandardVersion(release=(0,)))
-- 
2.43.0


From ea3a013f327e103d6dcdf5e6289c7659010489d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 35/70] fix: every task of the process pool settles with its
 own outcome when workers die, fail to start or the pool closes

---
 pkm/src/pkm/utils/multiproc/__init__.py | 252 +++++++++++++++---------
 1 file changed, 162 insertions(+), 90 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bb410c9..c78f661 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -7,14 +7,15 @@ import sys
 import traceback
 import typing
 from abc import ABC, abstractmethod
+from collections import deque
+from concurrent.futures import CancelledError
 from dataclasses import dataclass
 from io import StringIO
 from pathlib import Path
-from queue import Queue, Empty
 from subprocess import Popen, PIPE
-from threading import Lock, Thread
+from threading import Condition, Lock, Thread
 from types import FunctionType
-from typing import BinaryIO, Optional, Any, Callable, TypeVar, List, Dict, cast
+from typing import BinaryIO, Optional, Any, Callable, TypeVar, List, Dict, Deque, Tuple
 
 from pkm.utils.commons import Closeable
 from pkm.utils.promises import Promise, Deferred
@@ -51,6 +52,18 @@ class _StandardStreamPipe(StringIO):
         return len(__s)
 
 
+# messages are pickled before they are sent (and un-pickled after they are completely received), so that a message
+# that cannot be pickled will never leave a part of itself in the stream
+
+def _write_message(stream: BinaryIO, message: bytes):
+    pickle.dump(message, stream)
+    stream.flush()
+
+
+def _read_message(stream: BinaryIO) -> bytes:
+    return pickle.load(stream)
+
+
 class _Command(ABC):
     @abstractmethod
     def execute(self) -> Any:
@@ -82,100 +95,105 @@ class _Worker:
     def run(self):
         self._attach_to_process()
         while True:
-            cmd: _Command = pickle.load(self._stdin)
             try:
-                result = cmd.execute()
-                pickle.dump(_CommandResult(result), self._stderr)
-                self._stderr.flush()
+                message = _read_message(self._stdin)
+            except EOFError:  # the process that created this worker is gone
+                return
+
+            try:
+                cmd: _Command = pickle.loads(message)
+                result = pickle.dumps(_CommandResult(cmd.execute()))
             except Exception as e:  # noqa
                 err_strace = StringIO()
                 traceback.print_exc(file=err_strace)
-                pickle.dump(_CommandResult(err_strace=err_strace.getvalue()), self._stderr)
-                self._stderr.flush()
+                result = pickle.dumps(_CommandResult(err_strace=err_strace.getvalue()))
+
+            _write_message(self._stderr, result)
 
 
 class _WorkerHandler:
     def __init__(self, pool: ProcessPoolExecutor, name: str):
         self._pool = pool
         self._proc: Optional[Popen] = None
-        self._threads: Optional[List[Thread]] = None
         self.name = name
 
     def _execute_worker(self):
         executable = sys.executable
         self._proc = Popen(
             args=[executable, "-u", str(Path(__file__).parent / "worker.py")],
-            stderr=PIPE, stdout=PIPE, stdin=PIPE, bufsize=0,
+            stderr=PIPE, stdout=PIPE, stdin=PIPE,
             env=os.environ
         )
 
-    def _should_terminate(self):
-        return self._pool.is_closed() or self._proc.poll() is not None
-
     def _handle_log(self):
+        stream = [sys.stdout, sys.stderr]
+        worker_output = self._proc.stdout
         try:
-            stream = [sys.stdout, sys.stderr]
-            while not self._should_terminate():
-                write: _StdWrite = pickle.load(self._proc.stdout)
-                stream[write.stream_id].write(write.msg)
+            while True:
+                write: _StdWrite = pickle.load(worker_output)
+                try:
+                    stream[write.stream_id].write(write.msg)
+                except Exception:  # noqa - a broken log should not affect the worker
+                    ...
         except EOFError:
-            pass
+            ...
+        except Exception:  # noqa - cannot understand the output anymore, but should not block the worker from writing it
+            while worker_output.read(1024):
+                ...
 
     def __del__(self):
-        if self._proc.poll() is not None:
+        if self._proc and self._proc.poll() is None:
             self._proc.kill()
 
     def _handle_work(self):
-        q = self._pool._task_queue  # noqa
         try:
-            while not self._should_terminate():
+            while entry := self._pool._next_task():  # noqa
+                if self._proc.poll() is not None:  # died while it was idle
+                    self._pool._return_task(entry)  # noqa
+                    return
 
+                task, task_result = entry
                 try:
-                    next_task: _Task = q.get(block=True, timeout=self._pool.max_inactivity_seconds)
-                except Empty:
-                    self.kill()
-                    self._proc.wait()
-                    return
+                    message = pickle.dumps(task)
+                except BaseException as e:
+                    task_result.fail(e)
+                    continue
 
-                task_result: _TaskResult = cast(_TaskResult, next_task.result)
-                next_task.result = None
+                if not task_result.attach_worker(self):
+                    continue
 
                 try:
-                    if task_result.attach_worker(self):
-                        pickle.dump(next_task, self._proc.stdin)
-                        self._proc.stdin.flush()
-
-                        proc_result: _CommandResult = pickle.load(self._proc.stderr)
-
-                        if proc_result.err_strace:
-                            task_result.deferred.fail(
-                                Exception(
-                                    f"Worker Execution Failure, Worker Stacktrace was: \n\n{proc_result.err_strace}"))
-                        else:
-                            task_result.deferred.complete(proc_result.result)
+                    _write_message(self._proc.stdin, message)
+                    response = _read_message(self._proc.stderr)
                 except BaseException as e:
-                    task_result.deferred.fail(e)
-                finally:
-                    q.task_done()
+                    task_result.fail(e)
+                    return  # the worker is gone or should not be trusted anymore
+
+                try:
+                    proc_result: _CommandResult = pickle.loads(response)
+                    if proc_result.err_strace:
+                        raise Exception(
+                            f"Worker Execution Failure, Worker Stacktrace was: \n\n{proc_result.err_strace}")
+                except BaseException as e:
+                    settled = task_result.fail(e)
+                else:
+                    settled = task_result.complete(proc_result.result)
+
+                if not settled:
+                    return  # canceled, which means that the worker is being killed
         finally:
+            self.kill()
             # noinspection PyProtectedMember
             self._pool._removed_worker(self)
 
     def kill(self):
         self._proc.kill()
-
-    def join(self):
-        for t in self._threads:
-            t.join()
         self._proc.wait()
 
     def start(self):
         self._execute_worker()
-        log_thread = Thread(target=self._handle_log, daemon=True)
-        work_thread = Thread(target=self._handle_work, daemon=True)
-        self._threads = [log_thread, work_thread]
-        log_thread.start()
-        work_thread.start()
+        Thread(target=self._handle_log, daemon=True).start()
+        Thread(target=self._handle_work, daemon=True).start()
 
 
 @dataclass
@@ -183,7 +201,6 @@ class _Task(_Command):
     function: FunctionType
     args: List[Any]
     kwargs: Dict[str, Any]
-    result: _TaskResult
 
     def execute(self) -> Any:
         return self.function(*self.args, **self.kwargs)
@@ -192,81 +209,136 @@ class _Task(_Command):
 class _TaskResult:
     def __init__(self):
         self.deferred = Deferred(self._on_cancel)
+        self._settled = False
         self._canceled = False
         self._attached_worker: Optional[_WorkerHandler] = None
         self._lock = Lock()
 
     def attach_worker(self, worker: _WorkerHandler) -> bool:
         with self._lock:
-            if self._canceled:
+            if self._settled:
                 return False
             self._attached_worker = worker
 
         return True
 
+    def _settle(self) -> bool:
+        with self._lock:
+            if self._settled:
+                return False
+            self._settled = True
+            self._attached_worker = None
+
+        return True
+
+    def complete(self, result: Any) -> bool:
+        if settled := self._settle():
+            self.deferred.complete(result)
+        return settled
+
+    def fail(self, error: BaseException) -> bool:
+        if settled := self._settle():
+            self.deferred.fail(error)
+        return settled
+
     def _on_cancel(self) -> bool:
-        if self._canceled or self.deferred.promise().is_completed():
-            with self._lock:
-                self._canceled = True
-                if self._attached_worker:
-                    self._attached_worker.kill()
+        with self._lock:
+            if self._settled:
+                return self._canceled
+            self._settled = True
+            self._canceled = True
+            worker = self._attached_worker
+
+        if worker:
+            worker.kill()
 
+        self.deferred.fail(CancelledError())
         return True
 
 
 class ProcessPoolExecutor(Closeable):
 
-    def __init__(
-            self, max_workers: int = multiprocessing.cpu_count(), task_queue: Optional[Queue] = None,
-            max_inactivity_seconds: int = 15):
+    def __init__(self, max_workers: int = multiprocessing.cpu_count(), max_inactivity_seconds: int = 15):
         self._closed = False
-        self._task_queue: Queue[_Task] = task_queue or Queue()
-        self._workers_lock = Lock()
-        self._next_worker_id = 0
+        self._state_changed = Condition(Lock())  # guards the fields below
+        self._tasks: Deque[Tuple[_Task, _TaskResult]] = deque()
         self._workers: Dict[str, _WorkerHandler] = {}
+        self._idle_workers = 0
+        self._next_worker_id = 0
         self._max_workers = max_workers
         self.max_inactivity_seconds = max_inactivity_seconds
 
     def execute(self, execution: Callable[_PARAMS, _T],
                 *args: _PARAMS.args, **kwargs: _PARAMS.kwargs) -> Promise[_T]:
 
-        assert not self._closed or execution == sys.exit, "attempting execution after/during shutdown"
-
         result = _TaskResult()
 
-        # noinspection PyTypeChecker
-        self._task_queue.put(_Task(execution, args, kwargs, result))
+        with self._state_changed:
+            assert not self._closed, "attempting execution after/during shutdown"
 
-        self._spawn_new_worker_if_needed()
+            # noinspection PyTypeChecker
+            self._tasks.append((_Task(execution, args, kwargs), result))
+            self._state_changed.notify_all()
+            new_worker = self._create_worker_if_needed()
 
+        self._start(new_worker)
         return result.deferred.promise()
 
+    def _next_task(self) -> Optional[Tuple[_Task, _TaskResult]]:
+        """
+        :return: the next task to execute or None if the calling worker is not needed anymore
+        """
+        with self._state_changed:
+            self._idle_workers += 1
+            try:
+                self._state_changed.wait_for(lambda: self._tasks or self._closed, self.max_inactivity_seconds)
+            finally:
+                self._idle_workers -= 1
+            return self._tasks.popleft() if self._tasks else None
+
+    def _return_task(self, task: Tuple[_Task, _TaskResult]):
+        with self._state_changed:
+            self._tasks.appendleft(task)
+            self._state_changed.notify_all()
+
     def _removed_worker(self, worker: _WorkerHandler):
-        with self._workers_lock:
+        with self._state_changed:
             del self._workers[worker.name]
+            new_worker = self._create_worker_if_needed()
+            self._state_changed.notify_all()
 
-        self._spawn_new_worker_if_needed()
+        self._start(new_worker)
 
-    def _spawn_new_worker_if_needed(self):
-        new_worker = None
-        with self._workers_lock:
-            n_workers = len(self._workers)
-            if self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
-                new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
-                self._next_worker_id += 1
-                self._workers[new_worker.name] = new_worker
-        if new_worker:
-            new_worker.start()
+    def _create_worker_if_needed(self) -> Optional[_WorkerHandler]:
+        if len(self._tasks) > self._idle_workers and len(self._workers) < self._max_workers:
+            new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
+            self._next_worker_id += 1
+            self._workers[new_worker.name] = new_worker
+            return new_worker
 
-    def close(self):
-        self._closed = True
+    def _start(self, worker: Optional[_WorkerHandler]):
+        if not worker:
+            return
 
-        workers = list(self._workers.values())
-        for _ in workers:
-            self.execute(sys.exit, 0)
+        try:
+            worker.start()
+        except BaseException as e:
+            abandoned_tasks = []
+            with self._state_changed:
+                del self._workers[worker.name]
+                if not self._workers:  # nobody is left to execute them
+                    abandoned_tasks.extend(self._tasks)
+                    self._tasks.clear()
+                self._state_changed.notify_all()
+
+            for _, result in abandoned_tasks:
+                result.fail(e)
 
-        for worker in workers:
-            worker.join()
+    def close(self):
+        with self._state_changed:
+            self._closed = True
+            self._state_changed.notify_all()
+            self._state_changed.wait_for(lambda: not self._workers and not self._tasks)
 
     def is_closed(self) -> bool:
         return self._closed
-- 
2.43.0


From 88432496d0f922105d2e75be8855d7f9d9f165ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 36/70] fix: parallel package operations tolerate shared
 directories that another operation removes or creates

---
 pkm/src/pkm/api/packages/site_packages.py |  7 ++++-
 pkm/src/pkm/utils/files.py                | 38 +++++++++++++++++------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 2fff34b..493c24d 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -238,7 +238,12 @@ class InstalledPackage(Package, Serializable):
             if installed_file.suffix == '.py' and \
                     is_real_directory(precompiled := installed_file.parent / "__pycache__"):
                 compiled_rx = re.compile(re.escape(installed_file.stem) + r"\.[^.]+(\.opt-[^.]+)?\.pyc")
-                for compiled_file in list(precompiled.iterdir()):
+                try:
+                    compiled_files = list(precompiled.iterdir())
+                except FileNotFoundError:  # somebody else removed it in the meanwhile
+                    compiled_files = []
+
+                for compiled_file in compiled_files:
                     if compiled_rx.fullmatch(compiled_file.name):
                         remove(compiled_file)
                 parents_to_check.add(precompiled)
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 8fa168c..0a2167c 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -18,7 +18,10 @@ def is_empty_directory(path: Path) -> bool:
     :return: if `path` is empty directory
     """
 
-    return path.is_dir() and next(path.iterdir(), None) is None
+    try:
+        return path.is_dir() and next(path.iterdir(), None) is None
+    except FileNotFoundError:  # removed in the meanwhile
+        return False
 
 
 def ensure_exists(path: Path, error_msg: Optional[Callable[[], str]] = None) -> Path:
@@ -152,6 +155,10 @@ def name_without_ext(path: Path) -> str:
         return name
 
 
+# other transactions may remove an (empty) parent directory between its creation and its usage
+_MAX_PARENT_RETRIES = 16
+
+
 class CopyTransaction:
     """
     a context manager for copy transactions,
@@ -193,7 +200,7 @@ class CopyTransaction:
         :param target: the directory path to create
         :return `target` to be used with chaining
         """
-        if not target.exists():
+        while not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
             try:
@@ -202,6 +209,9 @@ class CopyTransaction:
             except FileExistsError:  # another transaction may have created it in the meanwhile
                 if not target.is_dir():
                     raise
+            except FileNotFoundError:
+                # another transaction may have removed the (empty) parent in the meanwhile
+                ...
 
         return target
 
@@ -218,14 +228,14 @@ class CopyTransaction:
         file_copy = file_copy or shutil.copy
         self.will_write(target)
 
-        try:
-            file_copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
+        for retries in reversed(range(_MAX_PARENT_RETRIES)):
+            try:
                 file_copy(source, target)
-            else:
-                raise
+                break
+            except FileNotFoundError:
+                if not retries or not source.exists():
+                    raise
+                self.mkdir(target.parent)
 
     def will_write(self, target: Path):
         """
@@ -337,7 +347,15 @@ class CopyTransaction:
                 shutil.rmtree(path)
             else:
                 path.unlink(missing_ok=True)
-            shutil.move(temp, path)
+
+            for retries in reversed(range(_MAX_PARENT_RETRIES)):
+                try:
+                    path.parent.mkdir(parents=True, exist_ok=True)
+                    shutil.move(temp, path)
+                    break
+                except FileNotFoundError:
+                    if not retries or not os.path.lexists(temp):
+                        raise
 
         self._commit()
 
-- 
2.43.0


From e44fbb2dea1c3b609f37835eb78630a6bcee0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:07 +0000
Subject: [PATCH 37/70] fix: a failing plan never kills package operations that
 already started in worker processes

---
 .../pkm/api/packages/package_installation.py  | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 40aab97..7b23004 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -5,7 +5,7 @@ from concurrent.futures import ThreadPoolExecutor
 from dataclasses import dataclass
 from enum import Enum
 from pathlib import Path
-from typing import List, Dict, Optional, Union, Set, FrozenSet, Tuple, TYPE_CHECKING
+from typing import List, Dict, Optional, Union, Set, FrozenSet, Tuple, Callable, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -326,22 +326,24 @@ class _PackageOperationTask:
         operation, store_mode, user_request, package, target = \
             self._operation, self._store_mode, self._user_request, self._package, self._target
 
-        executor = procpool if self.can_be_multiprocessesd() and procpool else threadpool
-
-        promise = None
         if operation == PackageOperation.INSTALL:
-            promise = Promise.execute(
-                executor, _po_execute, package, "install_to", target, store_mode=store_mode, user_request=user_request)
-
+            call = (_po_execute, package, "install_to", target)
+            options = {'store_mode': store_mode, 'user_request': user_request}
         elif operation == PackageOperation.UPDATE:
-            promise = Promise.execute(
-                executor, _po_execute, package, "update_at", target, store_mode=store_mode, user_request=user_request)
+            call = (_po_execute, package, "update_at", target)
+            options = {'store_mode': store_mode, 'user_request': user_request}
         elif operation == PackageOperation.REMOVE:
-            promise = Promise.execute(executor, _po_remove, package)
-
-        if not promise:
+            call, options = (_po_remove, package), {}
+        else:
             raise UnsupportedOperationException(f"unsupported package operation {self._operation}")
 
+        if procpool and self.can_be_multiprocessesd():
+            # canceling a process pool task that already started kills its worker, which may leave a partial package.
+            # waiting for it inside a thread means that, like any other operation, it is only canceled before it starts
+            call = (_po_multiprocess, procpool, *call)
+
+        promise = Promise.execute(threadpool, *call, **options)
+
         return PackageOperationMonitoredOp(package.descriptor, operation).with_async(promise)
 
 
@@ -349,6 +351,10 @@ def _po_execute(package: Package, mtd: str, *args, **kwargs):
     getattr(package, mtd)(*args, **kwargs)
 
 
+def _po_multiprocess(procpool: ProcessPoolExecutor, mtd: Callable, *args, **kwargs):
+    return procpool.execute(mtd, *args, **kwargs).result()
+
+
 def _po_remove(package: InstalledPackage):
     with CopyTransaction() as transaction:  # if the removal fails, the package stays complete
         package.uninstall(transaction)
-- 
2.43.0


From d6d67361a1b87e7b0243c4d9e4ae8c5c51d77a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 38/70] fix: git checkouts become visible only when they are
 complete and follow the branch they were requested for

---
 pkm/src/pkm/repositories/git_repository.py | 60 ++++++++++++++--------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 18e32f3..78078df 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,5 +1,8 @@
+import hashlib
 import shutil
 from pathlib import Path
+from subprocess import CalledProcessError
+from tempfile import mkdtemp
 from typing import List, Optional, cast, TYPE_CHECKING, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
@@ -37,29 +40,48 @@ class _Git:
         :return: True if the repository directory is in a detached head state, False if it in a branch
         """
         head = (dir_ / '.git/HEAD').read_text()
-        return not (dir_ / '.git/heads' / head).exists()
+        return not head.startswith('ref:')
+
+    def _run(self, package_name: str, *args: str, cwd: Optional[Path] = None):
+        # TODO: the monitoring should probably run as part of a larger "match" monitored operation
+        monitored_run(
+            f'fetch {package_name}', [self._git_cmd, *args], cwd=str(cwd) if cwd else None).check_returncode()
 
     def update(self, package_name: str, repo_dir: Path):
         if self._is_detached(repo_dir):
             return
 
-        monitored_run(
-            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()
+        self._run(package_name, 'fetch', '--prune', cwd=repo_dir)
+        # unlike pull, this also restores files that were left by an interrupted update
+        self._run(package_name, 'reset', '--hard', '@{upstream}', cwd=repo_dir)
 
     def clone(self, package_name: str, repository_url: str, branch_or_commit: Optional[str], target_dir: Path):
-        # TODO: the monitoring should probably run as part of a larger "match" monitored operation
+        target_dir.parent.mkdir(parents=True, exist_ok=True)
+        temp_dir = Path(mkdtemp(dir=target_dir.parent, prefix='.clone-'))
 
         try:
-            monitored_run(
-                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(target_dir)]).check_returncode()
-
+            clone_dir = temp_dir / 'repo'
+            self._run(package_name, 'clone', repository_url, str(clone_dir))
             if branch_or_commit:
-                monitored_run(
-                    f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit],
-                    cwd=str(target_dir)).check_returncode()
-        except Exception:
-            shutil.rmtree(target_dir, ignore_errors=True)
-            raise
+                self._run(package_name, 'checkout', branch_or_commit, cwd=clone_dir)
+
+            # only complete clones become visible
+            if target_dir.exists():
+                target_dir.rename(temp_dir / 'previous')
+            clone_dir.rename(target_dir)
+        finally:
+            shutil.rmtree(temp_dir, ignore_errors=True)
+
+    def update_or_clone(
+            self, package_name: str, repository_url: str, branch_or_commit: Optional[str], target_dir: Path):
+
+        if target_dir.exists():
+            try:
+                return self.update(package_name, target_dir)
+            except (OSError, CalledProcessError):
+                ...  # the repository may be damaged (e.g., by an interrupted update)
+
+        self.clone(package_name, repository_url, branch_or_commit, target_dir)
 
 
 class GitRepository(AbstractRepository):
@@ -89,14 +111,10 @@ class GitRepository(AbstractRepository):
         else:
             raise ValueError(f"malformed git url: {url}")
 
-        target_dir = self._workspace / dependency.package_name / url.host / url.path.lstrip('/')
-        if branch:
-            target_dir /= branch
-
-        if target_dir.exists():
-            self._git_client.update(dependency.package_name, target_dir)
-        else:
-            self._git_client.clone(dependency.package_name, str(url), branch, target_dir)
+        # each url and revision has its own directory, which never resides inside the directory of another
+        url_hash = hashlib.sha256(version.url.encode()).hexdigest()
+        target_dir = self._workspace / dependency.package_name / f"{Path(url.path).name}-{url_hash}"
+        self._git_client.update_or_clone(dependency.package_name, str(url), branch, target_dir)
 
         desc = PackageDescriptor(dependency.package_name, version)
 
-- 
2.43.0


From 66839ce14161f8ed3fe60df88b7aa6d311138dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 39/70] fix: an interrupted environment creation leaves nothing
 that looks like an environment

---
 .../api/environments/environment_builder.py   | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index e821235..100ac5b 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -50,19 +50,21 @@ class EnvironmentBuilder:
             raise FileExistsError(f"{env_path} already exists")
 
         ispc = _introspection_for(interpreter_path)
-        sys_platform = ispc['sys']['platform']
-        is_windows = ispc.is_windows_env()
-        sys_vinfo = ispc['sys']['version_info']
 
-        env_path.mkdir(parents=True, exist_ok=True)
+        env_path.mkdir(parents=True)
+        try:
+            EnvironmentBuilder._fill(env_path, interpreter_path, ispc)
+        except BaseException:
+            shutil.rmtree(env_path, ignore_errors=True)
+            raise
 
-        # prepare pyvenv.cfg
-        pyvenvcfg = PyVEnvConfiguration.load(env_path / 'pyvenv.cfg')
+        return Environment(env_path)
 
-        pyvenvcfg.home = interpreter_path.parent
-        pyvenvcfg.version = Version.parse('.'.join(str(it) for it in sys_vinfo[:3]))
-        pyvenvcfg.include_system_site_packages = False
-        pyvenvcfg.save()
+    @staticmethod
+    def _fill(env_path: Path, interpreter_path: Path, ispc: EnvironmentIntrospection):
+        sys_platform = ispc['sys']['platform']
+        is_windows = ispc.is_windows_env()
+        sys_vinfo = ispc['sys']['version_info']
 
         # build relevant directories
         if is_windows:
@@ -101,7 +103,13 @@ class EnvironmentBuilder:
                 if not executable_path.exists():
                     executable_path.symlink_to(interpreter_path)
 
-        return Environment(env_path)
+        # prepare pyvenv.cfg, it is the last file to be written as its existence is what marks an environment
+        pyvenvcfg = PyVEnvConfiguration.load(env_path / 'pyvenv.cfg')
+
+        pyvenvcfg.home = interpreter_path.parent
+        pyvenvcfg.version = Version.parse('.'.join(str(it) for it in sys_vinfo[:3]))
+        pyvenvcfg.include_system_site_packages = False
+        pyvenvcfg.save()
 
 
 def _introspection_for(interpreter_path: Path) -> EnvironmentIntrospection:
-- 
2.43.0


From eb70f066f53032e046ca85246c0ea65af4803392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 40/70] fix: created environments are isolated, their
 pyvenv.cfg uses the key = value lines python reads

---
 pkm/src/pkm/api/environments/environment_builder.py |  4 +---
 pkm/src/pkm/config/configfiles.py                   | 10 ++++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index 100ac5b..9495c7c 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -1,4 +1,3 @@
-import re
 import shutil
 import sys
 from dataclasses import dataclass
@@ -15,7 +14,6 @@ from pkm.config.configfiles import WheelFileConfigIO
 from pkm.utils.commons import NoSuchElementException
 
 _INTERPRETER_INTROSPECTIONS: Dict[str, EnvironmentIntrospection] = {}
-_PYVENV_SEP_RX = re.compile("\\s*=\\s*")
 
 
 class EnvironmentBuilder:
@@ -121,7 +119,7 @@ def _introspection_for(interpreter_path: Path) -> EnvironmentIntrospection:
 
 
 @dataclass
-@config(io=WheelFileConfigIO())
+@config(io=WheelFileConfigIO('='))
 class PyVEnvConfiguration(ConfigFile):
     home: Path
     version: Version
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 0b88cb6..b663f29 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -107,18 +107,20 @@ _WheelBoolFieldCodec = _WheelBoolFieldCodec()
 
 class WheelFileConfigIO(ConfigIO):
 
-    def __init__(self, *, codec: ConfigCodec = None):
+    def __init__(self, separator: str = ':', *, codec: ConfigCodec = None):
         super().__init__(codec=(codec or ConfigCodec()).extended({bool: _WheelBoolFieldCodec}))
+        self._separator = separator
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        content = os.linesep.join(f'{k}: {v}' for k, v in data.items())
+        separator = ': ' if self._separator == ':' else f' {self._separator} '
+        content = os.linesep.join(f'{k}{separator}{v}' for k, v in data.items())
         with open_for_replace(path) as fd:
             fd.write(content)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
-        seperator_rx = re.compile("\\s*:\\s*")
+        seperator_rx = re.compile(f"\\s*{re.escape(self._separator)}\\s*")
         lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv) for kv in lines if kv)
+        kvs = (seperator_rx.split(kv, maxsplit=1) for kv in lines if kv)
         return {k: v for k, v in kvs}
 
 
-- 
2.43.0


From 28e535f1b2b065887667b2b430b58e370c5d08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 41/70] fix: damaged or foreign cached interpreter information
 is rebuilt

---
 .../environments/environment_introspection.py | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..caa8c99 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -1,18 +1,18 @@
 from __future__ import annotations
 
+import hashlib
 import json
 import os
 import re
 import subprocess
 import warnings
 from dataclasses import dataclass
-from json import JSONDecodeError
 from pathlib import Path
 from struct import Struct
 from typing import Iterator, Tuple, List, Optional, Dict, IO, Callable, Any
 
 from pkm.api.versions.version import StandardVersion
-from pkm.utils.files import temp_dir
+from pkm.utils.files import open_for_replace, temp_dir
 from pkm.utils.properties import cached_property
 from pkm.utils.sequences import index_of_or_none
 from pkm.utils.types import Comparable
@@ -402,11 +402,13 @@ class EnvironmentIntrospection:
 
         try:
             data = json.loads(path.read_text()) if path.exists() else {}
-        except JSONDecodeError as err:
+            if not isinstance(data, dict):
+                raise ValueError("not an introspection")
+        except (OSError, ValueError) as err:
             warnings.warn(f"env introspection is corrupted, rebuilding it: {err}")
             data = {}
 
-        current_introspection_sentinal = hash((_INTROSPECTION_CODE, str(interpreter_path.absolute())))
+        current_introspection_sentinal = _introspection_sentinal(interpreter_path)
         if (introspection_sentinal := data.get('introspection')) \
                 and introspection_sentinal == current_introspection_sentinal:
             return cls(data=data)
@@ -416,11 +418,23 @@ class EnvironmentIntrospection:
             data = result._data
             data['introspection'] = current_introspection_sentinal
             path.parent.mkdir(exist_ok=True, parents=True)
-            path.write_text(json.dumps(data))
+            with open_for_replace(path) as fd:
+                fd.write(json.dumps(data))
 
         return result
 
 
+def _introspection_sentinal(interpreter_path: Path) -> str:
+    """
+    :return: a value that identifies the introspection of the given interpreter,
+             it is different if the interpreter is replaced (also by another one in the same path)
+    """
+    interpreter_stat = interpreter_path.stat()
+    identity = (_INTROSPECTION_CODE, str(interpreter_path.absolute()), os.path.realpath(interpreter_path),
+                interpreter_stat.st_size, interpreter_stat.st_mtime_ns)
+    return hashlib.sha256(repr(identity).encode()).hexdigest()
+
+
 def _mac_arch(arch: str, is_32bit: bool) -> str:
     if not is_32bit:
         return arch
-- 
2.43.0


From a797307858b8dd9cb3ab1178a3932dc85bd92913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 42/70] fix: an interrupted creation of an environment zoo
 leaves nothing that looks like a zoo

---
 pkm/src/pkm/api/environments/environments_zoo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..1077575 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -116,11 +116,12 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
             return EnvironmentsZoo(EnvironmentZooConfiguration.load(cfg_path))
 
         cfg = EnvironmentZooConfiguration.load(cfg_path)
-        cfg.save()
-
         (path / ".zoo/bin").mkdir(exist_ok=True, parents=True)
         (path / ".zoo/shared").mkdir(exist_ok=True, parents=True)
 
+        # the configuration file is what marks a zoo, therefore it is written when everything else is in place
+        cfg.save()
+
         return EnvironmentsZoo(cfg)
 
     @classmethod
-- 
2.43.0


From e5c2be4a71bb70b79c40106991e895b18e6993c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 43/70] fix: leaving an activated environment restores the
 variables also if the block removed them

---
 pkm/src/pkm/api/environments/environment.py      | 4 ++--
 pkm/src/pkm/api/environments/environments_zoo.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..8bdf817 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -188,12 +188,12 @@ class Environment(HasAttachedRepository, Serializable):
             if old_path is not None:
                 env["PATH"] = old_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
             if old_venv is not None:
                 env["VIRTUAL_ENV"] = old_venv
             else:
-                del env["VIRTUAL_ENV"]
+                env.pop("VIRTUAL_ENV", None)
 
     def exec_proc(self, cmd: str, args: Optional[List[str]] = None,
                   env: Optional[Dict[str, str]] = None) -> NoReturn:
diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 1077575..e5685ec 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -70,10 +70,10 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         try:
             yield
         finally:
-            if prev_path:
+            if prev_path is not None:
                 env["PATH"] = prev_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
     def list(self) -> Iterator[Environment]:
         """
-- 
2.43.0


From 7ed5b216a34cd93a94431c7e025e3635809ccd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 44/70] fix: an interrupted environment deletion leaves nothing
 that looks like an environment

---
 pkm/src/pkm/api/environments/environments_zoo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index e5685ec..1b8271a 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -52,8 +52,13 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         return EnvironmentBuilder.create_matching(env_path, python)
 
     def delete_environment(self, name: str):
+        env_path = self.path / name
+
+        # an environment that is only partially deleted should not be taken for an environment
+        (env_path / "pyvenv.cfg").unlink(missing_ok=True)
+
         # shared repository gc
-        shutil.rmtree(self.path / name)
+        shutil.rmtree(env_path)
 
     def clean_unused_shared(self):
         repo = self.attached_repository
-- 
2.43.0


From 83c6bce70b8431a51dfb9fb351e56a75cd03e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 45/70] fix: a broken interpreter does not prevent the
 discovery of the others

---
 pkm/src/pkm/api/environments/installed_pythons_locator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 19167da..1da0e5d 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -53,7 +53,7 @@ class InstalledPythonsLocator:
                     executable,
                     PackageDescriptor("python", Version.parse(version_str.strip()))))
 
-            except (ChildProcessError, CalledProcessError):
+            except (OSError, ValueError, CalledProcessError):
                 # import traceback
                 # traceback.print_exc()
                 pass  # skip this interpreter
@@ -106,7 +106,7 @@ def _lookup_in_path(path: Path):
 
 
 def _lookup_in_env_path() -> Set[Path]:
-    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).exists()]
+    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).is_dir()]
 
     return {
         executable
-- 
2.43.0


From 5d629f0947456795012e1888ccf44878e1947982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 46/70] fix: package sharing of a zoo that is not configured
 otherwise is enabled instead of failing

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 1b8271a..b24c3bb 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -143,4 +143,4 @@ class PackageSharingConfig:
 
 @config(io=TomlConfigIO())
 class EnvironmentZooConfiguration(ConfigFile):
-    package_sharing: PackageSharingConfig
+    package_sharing: PackageSharingConfig = config_field(default_factory=PackageSharingConfig)
-- 
2.43.0


From 77a35f5f9934795cedadadf2e07963cc1fdb42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 47/70] fix: shared packages become visible only when complete,
 keep all their files in each environment and are removed only when unused

---
 .../pkm/repositories/shared_pacakges_repo.py  | 284 +++++++++---------
 1 file changed, 146 insertions(+), 138 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index dfa145f..cdc1196 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -1,24 +1,26 @@
 import shutil
-import warnings
-from dataclasses import dataclass
+import sys
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import List, Optional, Set, Iterator, Iterable
+from uuid import uuid4
 
 from pkm.api.dependencies.dependency import Dependency
-from pkm.api.distributions.distinfo import DistInfo, RecordsFileConfiguration
+from pkm.api.distributions.distinfo import DistInfo
 from pkm.api.packages.package_installation_info import StoreMode
 from pkm.api.distributions.pth_link import PthLink
+from pkm.api.distributions.wheel_distribution import WheelDistribution
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.packages.package_metadata import PackageMetadata
-from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.repositories.repository import AbstractRepository, Repository
-from pkm.launchers.executables import Executables
-from pkm.utils.commons import NoSuchElementException
-from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
+from pkm.api.versions.version import UrlVersion
+from pkm.utils.files import is_empty_directory, temp_dir
 from pkm.utils.types import Serializable
-from pkm.utils.iterators import first_or_none
+
+# the name of the file that marks (inside the dist-info) an installed package which links to a shared artifact
+_SHARED_MARKER = "SHARED"
 
 
 class SharedPackagesRepository(AbstractRepository):
@@ -29,11 +31,11 @@ class SharedPackagesRepository(AbstractRepository):
         self._base_repo = base_repository
 
     def remove_unused_packages(self, package_users: Iterator[Environment]):
-        used_packages: Set[str] = set()
+        used_packages: Set[Path] = set()
         for package_user in package_users:
             for used_package in package_user.site_packages.installed_packages():
-                if (shared_marker := used_package.dist_info.path / "SHARED").exists():
-                    used_packages.add(shared_marker.read_text())
+                if (shared_marker := used_package.dist_info.path / _SHARED_MARKER).exists():
+                    used_packages.add(Path(shared_marker.read_text()).resolve())
 
         for package_dir in self._workspace.iterdir():
             if not package_dir.is_dir():
@@ -47,7 +49,10 @@ class SharedPackagesRepository(AbstractRepository):
                     if not shared_dir.is_dir():
                         continue
 
-                    if str(shared_dir.absolute()) not in used_packages:
+                    if shared_dir.resolve() not in used_packages:
+                        if not _is_hidden(shared_dir):  # otherwise it is a leftover of an interrupted operation
+                            # once its removal starts it should not be used anymore
+                            shared_dir = shared_dir.rename(shared_dir.with_name(f".{uuid4().hex}"))
                         shutil.rmtree(shared_dir)
 
                 if is_empty_directory(version_dir):
@@ -59,18 +64,14 @@ class SharedPackagesRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         packages_dir = self._workspace / dependency.package_name
         packages = self._base_repo.match(dependency, env)
-        return self._sort_by_priority([
-            _SharedPackage(p, packages_dir / str(p.version))
-            for p in packages
-        ])
 
-    @staticmethod
-    def _sort_by_priority(packages: List[Package]) -> List[Package]:
-        def key(p: Package):
-            return 0 if isinstance(p, _SharedPackage) else 1
+        def shared(p: Package) -> Package:
+            if isinstance(p.version, UrlVersion):
+                return p  # the content in the url may change
+            package_type = _SerializableSharedPackage if isinstance(p, Serializable) else _SharedPackage
+            return package_type(p, packages_dir / str(p.version))
 
-        packages.sort(key=key)
-        return packages
+        return [shared(p) for p in packages]
 
     def accepted_url_protocols(self) -> Iterable[str]:
         return self._base_repo.accepted_url_protocols()
@@ -85,6 +86,10 @@ class _SharedPackageArtifact:
     metadata: PackageMetadata
     compatibility_tags: str
 
+    @classmethod
+    def load(cls, path: Path) -> "_SharedPackageArtifact":
+        return cls(path, PackageMetadata.load(path / "dist-info/METADATA"), path.name)
+
 
 class _SharedPackage(Package):
 
@@ -92,23 +97,12 @@ class _SharedPackage(Package):
         self._package = package
         self._shared_path = shared_path
 
-        if isinstance(package, Serializable):
-            self.__getstate__ = self._getstate
-
         if shared_path.exists():
             self._artifacts = [
-                _SharedPackageArtifact(artifact, PackageMetadata.load(artifact / "dist-info/METADATA"), artifact.name)
-                for artifact in shared_path.iterdir()
-            ]
+                _SharedPackageArtifact.load(artifact) for artifact in shared_path.iterdir() if not _is_hidden(artifact)]
         else:
             self._artifacts = []
 
-    def _getstate(self):
-        return [self._package, self._shared_path]
-
-    def __setstate__(self, state):
-        self.__init__(*state)
-
     @property
     def descriptor(self) -> PackageDescriptor:
         return self._package.descriptor
@@ -117,7 +111,7 @@ class _SharedPackage(Package):
         try:
             return max(
                 ((a, s) for a in self._artifacts
-                 if (s := env.compatibility_tag_score(a.compatibility_tag)) is not None),
+                 if (s := env.compatibility_tag_score(a.compatibility_tags)) is not None),
                 key=lambda it: it[1]
             )[0]
         except ValueError:
@@ -128,11 +122,9 @@ class _SharedPackage(Package):
             extras: Optional[List[str]] = None) -> List["Dependency"]:
 
         if artifact := self._shared_artifact_for(target.env):
-            deps = artifact.metadata.dependencies
-        else:
-            deps = self._package.dependencies(target)
+            return [d for d in artifact.metadata.dependencies if d.is_applicable_for(target.env, extras)]
 
-        return [d for d in deps if d.is_applicable_for(target.env, extras)]
+        return self._package.dependencies(target, extras)
 
     def is_compatible_with(self, env: "Environment") -> bool:
         return self._package.is_compatible_with(env)
@@ -140,118 +132,134 @@ class _SharedPackage(Package):
     def install_to(
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
-        if shared := self._shared_artifact_for(target.env):
-            _link_shared(self.descriptor, shared, target)
-        else:
-            self._package.install_to(target, user_request, store_mode)
-            if shared := _move_to_shared(self._package.descriptor, target, self._shared_path):
-                _link_shared(self.descriptor, shared, target)
-
-
-def _copy_records(root: Path, shared: Path, records: List[Path]) -> List[Path]:
-    shared.mkdir(parents=True)
-    records_left = []
-    for record in records:
-        if is_relative_to(record, root):  # the path may lead out of the required source
-            shared_path = shared / record.relative_to(root)
-            if record.is_dir():
-                shared_path.mkdir(exist_ok=True, parents=True)
-            elif record.exists():
-                shared_path.parent.mkdir(exist_ok=True, parents=True)
-                shutil.copy(record, shared_path)
-        else:
-            records_left.append(record)
-    return records_left
-
 
-def _move_to_shared(package: PackageDescriptor,
-                    target: PackageInstallationTarget, shared_path: Path) -> Optional[_SharedPackageArtifact]:
-    psname = (package.expected_src_package_name + "-").lower()
+        if store_mode != StoreMode.EDITABLE:
+            shared = self._shared_artifact_for(target.env) or _share(self._package, target, self._shared_path)
+            if shared and not _is_shadowed(shared, target):
+                _link_shared(self.descriptor, shared, target, user_request)
+                return
 
-    for site in ('purelib', 'platlib'):
-        dist_info_path = first_or_none(
-            it for it in Path(getattr(target, site)).glob("*.dist-info") if it.name.lower().startswith(psname))
+        self._package.install_to(target, user_request, store_mode)
 
-        if dist_info_path:
-            break
-    else:
-        raise NoSuchElementException(f"package: {package} is reported as installed but could not be find inside venv")
 
-    dist_info = DistInfo.load(dist_info_path)
+class _SerializableSharedPackage(_SharedPackage, Serializable):
 
-    iinfo = dist_info.load_installation_info()
-    if iinfo.compatibility_tag:
-        compatibility_tags = iinfo.compatibility_tag
-        shared_target = shared_path / compatibility_tags
-    else:
-        return None  # TODO should probably notify the user that sharing is impossible for this package
-
-    records = list(dist_info.installed_files())
-
-    # filter dist info records:
-    records = [
-        r for r in records
-        if not is_relative_to(r, dist_info.path)]
-
-    # copy site
-    shared_purelib = shared_target / site
-    records = _copy_records(dist_info.path.parent, shared_purelib, records)
-
-    # copy scripts
-    script_entrypoints = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
-    bin_path = Path(target.scripts)
-    shared_bin = shared_target / "bin"
-
-    # filter script entrypoints - they should be re-generated
-    records = [r for r in records if not is_relative_to(r, bin_path) or r.stem not in script_entrypoints]
-    records = _copy_records(bin_path, shared_bin, records)
-
-    # copy dist-info
-    shutil.copytree(dist_info.path, shared_target / 'dist-info')
-
-    if records:
-        warnings.warn(f"{len(records)} unsharable records found in package: {package.name} {package.version}: "
-                      f"{', '.join(str(r) for r in records)}")
+    def __getstate__(self):
+        return [self._package, self._shared_path]
 
-    # uninstall the original package
-    InstalledPackage(dist_info).uninstall()
+    def __setstate__(self, state):
+        self.__init__(*state)
 
-    return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
 
+def _is_hidden(path: Path) -> bool:
+    return path.name.startswith(".")
 
-def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget):
-    with CopyTransaction() as ct:
 
-        package_prefix = f"{package.expected_src_package_name}-{package.version}"
+def _share(package: Package, target: PackageInstallationTarget, shared_path: Path) -> Optional[_SharedPackageArtifact]:
+    """
+    installs the given package into `shared_path`, such that the environment of the given target can link to it
+    :return: the shared artifact, or None if this package cannot be shared
+    """
 
-        site_name = "purelib" if (shared.path / "purelib").exists() else "platlib"
-        site_path = Path(getattr(target, site_name))
+    # the artifact is prepared aside and moved to its place only when it is complete
+    preparation_path = shared_path / f".{uuid4().hex}"
+    try:
+        preparation_path.mkdir(parents=True)
+        preparation_target = replace(target, **{
+            name: str(preparation_path / name)
+            for name in ("purelib", "platlib", "scripts", "data", "include", "platinclude")})
 
-        # first link the site data
-        purelib_link = PthLink(site_path / f"{package_prefix}.pth", [shared.path / site_name])
-        purelib_link.save()
-        ct.touch(purelib_link.path)
+        package.install_to(preparation_target, store_mode=StoreMode.COPY)
 
-        # now create all script entrypoints
-        shared_distinfo = DistInfo.load(shared.path / "dist-info", non_standard_name_ok=True)
-        bin_dir = Path(target.scripts)
-        for entrypoint in shared_distinfo.load_entrypoints_cfg().entrypoints:
-            if entrypoint.is_script():
-                ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, bin_dir))
+        dist_infos = [di for site in preparation_target.site_packages.all_sites() if site.exists()
+                      for di in DistInfo.scan(site)]
+        if len(dist_infos) != 1 or not _is_sharable(preparation_path, dist_infos[0]):
+            return None  # TODO should probably notify the user that sharing is impossible for this package
 
-        # then, patch non entrypoint scripts
-        for script in (shared.path / 'bin').iterdir():
-            target_script = bin_dir / script.name
-            Executables.patch_shabang_for_interpreter(script, target_script, target.env.interpreter_path)
-            ct.touch(target_script)
+        dist_info = dist_infos[0]
+        scripts = preparation_path / "scripts"
+        if scripts.exists():
+            _generalize_scripts(scripts, dist_info, target.env)
 
-        # we are almost done, copy dist-info
-        distinfo_path = site_path / f"{package_prefix}.dist-info"
-        ct.copy_tree(shared_distinfo.path, distinfo_path, lambda it: it.name != "RECORD")
-        shared_marker = (distinfo_path / "SHARED")
-        shared_marker.write_text(str(shared.path.absolute()))
-        ct.touch(shared_marker)
+        artifact_path = shared_path / dist_info.load_installation_info().compatibility_tag
+        dist_info.path.rename(preparation_path / "dist-info")
 
-        # and finally, sign the installation
-        record_path = distinfo_path / "RECORD"
-        RecordsFileConfiguration.load(record_path).sign_files(ct.copied_files, site_path).save()
+        try:
+            preparation_path.rename(artifact_path)
+        except OSError:
+            if not artifact_path.exists():  # otherwise, somebody else shared it in the meanwhile
+                raise
+
+        return _SharedPackageArtifact.load(artifact_path)
+    finally:
+        shutil.rmtree(preparation_path, ignore_errors=True)
+
+
+def _is_sharable(preparation_path: Path, dist_info: DistInfo) -> bool:
+    installation_info = dist_info.load_installation_info()
+    if not installation_info or not installation_info.compatibility_tag:
+        return False
+
+    return not any(
+        # site packages path configuration files have no effect outside the site packages directory
+        file.suffix == ".pth" if path.name in ("purelib", "platlib") else path.name != "scripts"
+        for path in preparation_path.iterdir()
+        for file in path.iterdir())
+
+
+def _generalize_scripts(scripts: Path, dist_info: DistInfo, env: Environment):
+    # the scripts of entrypoints are generated for each environment
+    entrypoint_scripts = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
+
+    env_shabang = f"#!{env.interpreter_path.absolute()}".encode(sys.getfilesystemencoding())
+    for script in list(scripts.rglob("*")):
+        if script.is_dir():
+            continue
+
+        if script.parent == scripts and (script.name in entrypoint_scripts or script.stem in entrypoint_scripts):
+            script.unlink()
+            continue
+
+        content = script.read_bytes()
+        shabang, line_sep, rest = content.partition(b"\n")
+        if shabang.rstrip() in (env_shabang, env_shabang + b"w"):
+            script.write_bytes(b"#!python" + shabang[len(env_shabang):] + line_sep + rest)
+
+
+def _is_shadowed(shared: _SharedPackageArtifact, target: PackageInstallationTarget) -> bool:
+    """
+    :return: True if files in the sites of the given target (e.g., leftovers of an interrupted installation)
+             would be found instead of those in the given shared artifact
+    """
+    return any(
+        Path(site, file.relative_to(shared_site)).exists()
+        for shared_site in (shared.path / "purelib", shared.path / "platlib") if shared_site.exists()
+        for file in shared_site.rglob("*") if not file.is_dir()
+        for site in (target.purelib, target.platlib))
+
+
+def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget,
+                 user_request: Optional[Dependency]):
+    """
+    installs into the given target a package that links to the given shared artifact
+    """
+
+    with temp_dir() as content:
+        dist_info = DistInfo.load(content / DistInfo.expected_dir_name(package))
+        shutil.copytree(shared.path / "dist-info", dist_info.path)
+        installation_info = dist_info.load_installation_info()
+        dist_info.record_path().unlink(missing_ok=True)
+        (dist_info.path / _SHARED_MARKER).write_text(str(shared.path.absolute()))
+
+        sites = [site for name in ("purelib", "platlib") if (site := shared.path / name).exists()]
+        # the path of the link does not depend on the version (or the kind) of the package,
+        # so that a link that was left by an interrupted installation is replaced
+        data_path = dist_info.path.with_suffix(".data")
+        (data_path / "purelib").mkdir(parents=True)
+        PthLink(data_path / "purelib" / f"{package.expected_src_package_name}-shared.pth", sites).save()
+
+        if (scripts := shared.path / "scripts").exists():
+            shutil.copytree(scripts, data_path / "scripts")
+
+        WheelDistribution.install_extracted_wheel(
+            package, content, target, user_request, installation_info, skip_record_verification=True)
-- 
2.43.0


From a38ff2d61b94e745f3903955b67b960073139476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 48/70] fix: packages are taken from the repository that they
 are bound to, and repository inheritance is followed as configured

bindings were looked up by the name of a cached repository instance, which may have been created under another name or by
another context, were sensitive to the spelling of the package name and could not refer to repositories of outer contexts.
configuration changes of the global context were not followed until the next process
---
 .../pkm/api/repositories/repository_loader.py | 86 ++++++++++++-------
 .../api/repositories/repository_management.py | 42 +++++----
 2 files changed, 80 insertions(+), 48 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index d387d1d..45395df 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -4,20 +4,19 @@ import warnings
 from collections import defaultdict
 from dataclasses import dataclass, field
 from pathlib import Path
-from typing import List, Dict, Iterable, Optional, Set, Mapping
+from typing import List, Dict, Iterable, Optional, Mapping, Union
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
-    RepositoriesConfigInheritanceMode
+    RepositoriesConfigInheritanceMode, RepositoryInstanceConfig
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
 from pkm.repositories.file_repository import FileRepository
 from pkm.repositories.pypi_repository import PypiRepositoryBuilder
 from pkm.utils.commons import NoSuchElementException
 from pkm.utils.entrypoints import EntryPoint
 from pkm.utils.hashes import HashBuilder
-from pkm.utils.iterators import first_or_none
 
 REPOSITORIES_EXTENSIONS_ENTRYPOINT_GROUP = "pkm-repositories"
 REPOSITORIES_CONFIGURATION_PATH = "etc/pkm/repositories.toml"
@@ -68,15 +67,21 @@ class RepositoryLoader:
                 warnings.warn(f"malformed repository entrypoint: {epoint}")
                 traceback.print_exc()
 
-        base = _CompositeRepository('base', base_repositories, set(), {})
+        self._base_repo = _CompositeRepository('base', base_repositories, [], {})
 
         self._cached_instances: Dict[_CachedRepositoryKey, Repository] = {}
 
         self.global_repo_config = RepositoriesConfiguration.load(main_cfg)
 
-        self._global_repo = self.load('global', self.global_repo_config, base)
+        self.reload_global_repo()
         self.workspace = workspace
 
+    def reload_global_repo(self):
+        """
+        recreates the global repository, should be called after changing the `global_repo_config`
+        """
+        self._global_repo = self.load('global', self.global_repo_config, self._base_repo)
+
     def available_repository_types(self) -> Iterable[RepositoryTypeInfo]:
         for builder in self._builders.values():
             yield RepositoryTypeInfo(builder, self._builder_providers.get(builder.repo_type))
@@ -85,41 +90,47 @@ class RepositoryLoader:
     def global_repo(self) -> Repository:
         return self._global_repo
 
-    def load(self, name: str, config: RepositoriesConfiguration, next_in_context: Repository) -> Repository:
+    def load(self, name: str, config: RepositoriesConfiguration, next_in_context: Optional[Repository],
+             inherited_definitions: Optional[Mapping[str, RepositoryInstanceConfig]] = None) -> Repository:
+        """
+        :param name: the name of the loaded repository
+        :param config: the configuration to load
+        :param next_in_context: the repository to inherit from
+        :param inherited_definitions: repositories, by name, that are defined by the contexts that `next_in_context` is
+            composed of, packages can be bound to these too
+        :return: repository that behaves as configured
+        """
         package_search_list = []
-        binding_only_repositories = set()
+        binding_only_repositories = []
 
         for defined_name, definition in config.repos.items():
             instance = self.build(defined_name, definition.type, **definition.args)
-            package_search_list.append(instance)
             if definition.bind_only:
-                binding_only_repositories.add(defined_name)
+                binding_only_repositories.append(instance)
+            else:
+                package_search_list.append(instance)
 
         if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
-            package_search_list.append(next_in_context)
+            if next_in_context:
+                package_search_list.append(next_in_context)
         elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
             package_search_list.append(self.global_repo)
 
-        package_binding: Dict[str, str] = {}
+        definitions = {**(inherited_definitions or {}), **config.repos}
+        package_binding: Dict[str, Union[str, Repository]] = {}
         for package, binding in config.package_bindings.items():
-            if isinstance(binding, str):
-                package_binding[package] = binding
-            else:
-                binding_args = dict(binding)
-                binding = self.build(name, binding_args.pop('type'), **binding_args)
-                binding_only_repositories.add(binding.name)
-                package_search_list.append(binding)
-                package_binding[package] = binding.name
+            if not isinstance(binding, str):
+                binding_args = {k: v for k, v in binding.items() if k not in ('type', 'bind-only')}
+                binding = self.build(f"{name}:{package}", binding['type'], **binding_args)
+            elif definition := definitions.get(binding):
+                binding = self.build(binding, definition.type, **definition.args)
 
-        if not package_search_list:
-            if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-                return self.global_repo
-            return next_in_context
+            package_binding[PackageDescriptor.package_name_key(package)] = binding
 
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
             if not (builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
@@ -131,12 +142,13 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
-            .regular(self.builder) \
+            .regulars(self.name, self.builder) \
             .unordered_mapping(self.args) \
             .build()
 
@@ -144,17 +156,25 @@ class _CachedRepositoryKey:
 class _CompositeRepository(AbstractRepository):
     def __init__(
             self, name: str, package_search_list: List[Repository],
-            binding_only_repositories: Set[str], package_bindings: Mapping[str, str]):
+            binding_only_repositories: List[Repository], package_bindings: Mapping[str, Union[str, Repository]]):
+        """
+        :param name: the name of this repository
+        :param package_search_list: the repositories to search for packages, the first one that has a match is used
+        :param binding_only_repositories: repositories that are not searched for packages (but may handle urls)
+        :param package_bindings: the repository that each (bound) package should be taken from, by package name key,
+            a string value is the name of a repository that is not defined
+        """
         super().__init__(name)
 
         self._url_handlers: Dict[str, List[Repository]] = defaultdict(list)
         self._package_search_list = []
-        self._binding_only_repositories = binding_only_repositories
         self._package_binding = package_bindings
 
         for repo in package_search_list:
             if repo.accept_non_url_packages():
                 self._package_search_list.append(repo)
+
+        for repo in (*package_search_list, *binding_only_repositories):
             for protocol in repo.accepted_url_protocols():
                 self._url_handlers[protocol].append(repo)
 
@@ -164,16 +184,16 @@ class _CompositeRepository(AbstractRepository):
             for repo in self._url_handlers[url.protocol]:
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
-            if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
+        if repo := self._package_binding.get(dependency.package_name_key):
+            if isinstance(repo, str):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
-                                             f"repository: {repo_name}, but this repository is not defined")
+                                             f"repository: {repo}, but this repository is not defined")
             return repo.match(dependency, env)
 
         for repo in self._package_search_list:
-            if repo.name not in self._binding_only_repositories and (result := repo.match(dependency, env)):
+            if result := repo.match(dependency, env):
                 return result
 
         return []
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..4f3d895 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -56,7 +56,7 @@ class RepositoryManagement(ABC):
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
         if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
+            return [self, pkm.repository_management]
         elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             return [self]
 
@@ -99,27 +99,35 @@ class RepositoryManagement(ABC):
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
-                repo = repo.to_config()
-
-            self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
-                **{p: repo for p in packages}
-            }
-        else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
+                repo = {'type': repo.type, **repo.args}
 
+        package_keys = {PackageDescriptor.package_name_key(p) for p in packages}
+        bindings = {
+            p: r for p, r in self.configuration.package_bindings.items()
+            if PackageDescriptor.package_name_key(p) not in package_keys
+        }
+
+        if repo:
+            bindings.update((p, repo) for p in packages)
+
+        self.configuration.package_bindings = bindings
         self._update_config()
 
     @cached_property
     def attached_repo(self) -> Repository:
         repo = None
+        definitions: Dict[str, RepositoryInstanceConfig] = {}
         for rman in reversed(self.package_lookup_chain()):
-            if not isinstance(rman, PkmRepositoryManagement) and rman.configuration.path.exists():
-                repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
+            config = rman.configuration
+            if config.inheritance_mode == RepositoriesConfigInheritanceMode.NO_INHERITANCE:
+                definitions = {}
+            elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
+                definitions = self._loader.global_repo_config.repos
+
+            if not isinstance(rman, PkmRepositoryManagement) and config.path.exists():
+                repo = self._loader.load(str(config.path), config, repo, definitions)
             repo = rman._wrap_attached_repository(repo)
+            definitions = {**definitions, **config.repos}
 
         return repo
 
@@ -166,6 +174,10 @@ class PkmRepositoryManagement(RepositoryManagement):
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
         return self._loader.global_repo
 
+    def _update_config(self):
+        super()._update_config()
+        self._loader.reload_global_repo()
+
     def parent_contexts(self) -> List[HasAttachedRepository]:
         return []
 
-- 
2.43.0


From 04b132847c62f7cdb2ce42a14fb4d8e5a19ab07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 49/70] fix: packages missing from a simple repository do not
 hide other repositories, names, links and updates follow pep503

---
 pkm/src/pkm/repositories/simple_repository.py | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index be9e749..44eaaca 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,6 +1,8 @@
+import re
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
+from urllib.parse import urljoin
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -12,7 +14,7 @@ from pkm.api.repositories.repository import Repository, RepositoryBuilder, Abstr
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.cache_directive import CacheDirective
-from pkm.utils.http.http_client import Url
+from pkm.utils.http.http_client import Url, HttpException
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
 from pkm.utils.strings import endswith_any, without_suffix
@@ -26,14 +28,21 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._base_url = Url.parse(url).connection_part()
         self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
-        if not (version_to_package := self._packages.get(dependency.package_name)):
-            data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
-            extractor = _HtmlArtifactsExtractor(self._base_url)
+        package_name = _normalize(dependency.package_name)
+        if not (version_to_package := self._packages.get(package_name)):
+            try:
+                data = pkm.httpclient.fetch_resource(
+                    f"{self._url}/{package_name}", CacheDirective.ask_for_update()).data
+            except HttpException as e:
+                if e.response is not None and e.response.status == 404:  # this repository has no such package
+                    return []
+                raise
+
+            extractor = _HtmlArtifactsExtractor(f"{self._url}/{package_name}/")
             extractor.feed(data.read_text())
 
             all_artifacts = extractor.artifacts
@@ -47,12 +56,17 @@ class SimpleRepository(AbstractRepository):
 
                 for version_str, version_artifacts in grouped_by_version.items()
             }
-            self._packages[dependency.package_name] = version_to_package
+            self._packages[package_name] = version_to_package
 
         packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]
         return self._sorted_by_version(packages)
 
 
+def _normalize(package_name: str) -> str:
+    # names in the urls of a simple repository must be normalized (pep503)
+    return re.sub(r"[-_.]+", "-", package_name).lower()
+
+
 _DISTRIBUTION_EXTENSIONS = (".whl", ".tar.gz", ".zip")
 
 
@@ -91,9 +105,7 @@ class _HtmlArtifactsExtractor(HTMLParser):
             if requires_python_str := attrs.get('data-requires-python'):
                 requires_python = VersionSpecifier.parse(requires_python_str)
 
-            url = attrs.get('href')
-            if not url.startswith('http'):
-                url = f"{self._base_url}/{url.lstrip('/')}"
+            url = urljoin(self._base_url, attrs.get('href'))
 
             if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
                 self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
-- 
2.43.0


From 0eaf522e2809c30ba6a57fcf648707383f93e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 50/70] fix: packages missing from a pypi repository do not
 hide other repositories

---
 pkm/src/pkm/repositories/pypi_repository.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 905de29..438afde 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -51,6 +51,9 @@ class PyPiRepository(AbstractRepository, Serializable):
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
         except HttpException as e:
+            if e.response is not None and e.response.status == 404:  # this repository has no such package
+                return []
+
             raise InstallationException(
                 f"package: '{dependency.package_name}' could not be retrieved from repository: '{self.name}'") from e
 
-- 
2.43.0


From 9562e8cc97ca25d342f300064d59d086fddd224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:44 +0000
Subject: [PATCH 51/70] fix: file system repositories match names regardless of
 spelling and report a missing location

---
 pkm/src/pkm/repositories/file_system_repository.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..5777895 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -22,7 +22,7 @@ class PackagesDictRepository(AbstractRepository):
         self._packages = packages
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(dependency.package_name_key) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
@@ -40,21 +40,23 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
             if ProjectGroup.is_valid(path):
                 project_group = ProjectGroup.load(path)
                 for project in project_group.project_children_recursive:
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
             else:
                 try:
                     project = Project.load(path)
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
                 except MalformedPackageException:
                     pass
 
             for dist in path.iterdir():
                 if _is_distribution(dist):
                     package = Distribution.package_from(dist)
-                    packages[package.name].append(package)
+                    packages[package.name_key].append(package)
+        elif not path.exists():
+            raise FileNotFoundError(f"the location of repository: '{name}' does not exist: {path}")
         elif _is_distribution(path):
             package = Distribution.package_from(path)
-            packages[package.name].append(package)
+            packages[package.name_key].append(package)
 
         return PackagesDictRepository(name, packages)
 
-- 
2.43.0


From 7545d7ba807487a08983f9c22b0fc34318ca1ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 52/70] fix: multipart payloads end with a closing boundary

---
 pkm/src/pkm/utils/http/mfd_payload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..ba409e4 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -64,6 +64,8 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From 77197369678bde6b7d61ffa86b25a7ec2dd8263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 53/70] fix: the maintainers of a project are published as its
 maintainers (instead of its authors)

---
 pkm/src/pkm/api/packages/package_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 41fc80d..07cc7ad 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -113,8 +113,8 @@ class PackageMetadata(ConfigFile):
         author_names = [a.name for a in (prjc.authors or []) if a.name]
         author_emails = [a.email for a in (prjc.authors or []) if a.email]
 
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
+        maintainer_names = [a.name for a in (prjc.maintainers or []) if a.name]
+        maintainer_emails = [a.email for a in (prjc.maintainers or []) if a.email]
 
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
-- 
2.43.0


From 477c6f2f7c29afa5358f2d55d0af881d552f7f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:45 +0000
Subject: [PATCH 54/70] fix: a retried upload sends the content of the file
 again (instead of nothing)

---
 pkm/src/pkm/utils/http/mfd_payload.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index ba409e4..85df84e 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -14,6 +14,7 @@ class FormField:
     def __init__(self, name: str, payload: Union[IO, str, bytes], filename: Optional[str] = None):
         self.name: str = name
         self.payload = payload
+        self._payload_start = payload.tell() if isinstance(payload, IOBase) and payload.seekable() else None
         self.filename = filename or name
         filename_header_part = f'; filename="{filename}"' if filename else ""
         self.headers = {
@@ -21,6 +22,11 @@ class FormField:
             "Content-Type": _guess_content_type(filename)
         }
 
+    def rewind(self):
+        """prepare the payload to be read (again) from where it was when this field was created"""
+        if self._payload_start is not None:
+            self.payload.seek(self._payload_start)
+
     def set_content_type(self, content_type: str) -> "FormField":
         self.headers["Content-Type"] = content_type
         return self
@@ -54,6 +60,7 @@ class MultipartFormDataPayload:
 
             payload = field.payload
             if isinstance(payload, IOBase):
+                field.rewind()
                 yield from chunks(payload, chunk_size)
             elif isinstance(payload, str):
                 yield payload.encode()
-- 
2.43.0


From c47c0811f3d85480770b4b06fc8a3a386cf92cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:01 +0000
Subject: [PATCH 55/70] fix: only the wheel's own metadata directory may
 disagree with its RECORD

A mismatching file below any directory named *.dist-info was accepted, wherever in the wheel it is.
---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 5aeff34..dff5649 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -236,7 +236,7 @@ def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFil
         path = str(path_to(content, file))
         if (record := record_by_path.get(path)) and record.hash_signature:
             if not record.hash_signature.validate_against(file):
-                if any(it.name.endswith('.dist-info') for it in file.parents):
+                if dist_info.path in file.parents:
                     warnings.warn(f"mismatch hash signature for {file}")
                     record.hash_signature = None  # do not reuse it
                 else:
-- 
2.43.0


From 02fad5d31d8f0b997cc6e52ed9e66f678f383db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 56/70] fix: a failed copy transaction does not restore files
 that it wrote itself

A target written twice by the same transaction (e.g., shipped both in the root of a wheel and in its
data directory) was left behind when the transaction failed later.
---
 pkm/src/pkm/utils/files.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 0a2167c..8518496 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -285,6 +285,10 @@ class CopyTransaction:
         works for both files and directories
         :param path: the path to remove
         """
+        if path in self._copied_files and (path.is_symlink() or not path.is_dir()):
+            path.unlink()  # written by this transaction, nothing to restore
+            return
+
         temp = self._temp_dir / str(len(self._overwritten_files))
         try:
             os.rename(path, temp)
-- 
2.43.0


From d89a062b6a91d5b49e194c92fd19a82dc88a1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 57/70] fix: removing dependencies keeps the project requested
 when it was not installed

---
 pkm-cli/src/pkm_cli/controllers/prj_controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/controllers/prj_controller.py b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
index 061c83b..f8fa191 100644
--- a/pkm-cli/src/pkm_cli/controllers/prj_controller.py
+++ b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
@@ -33,7 +33,9 @@ class PrjController:
         prj.config.project.dependencies = filter_dep(project_dependencies)
         prj.config.project.optional_dependencies = {g: filter_dep(d) for g, d in project_optional_deps.items()}
 
-        prj.update_at(prj.attached_environment.installation_target)
+        target = prj.attached_environment.installation_target
+        installed = target.site_packages.installed_package(prj.name)
+        prj.update_at(target, (installed and installed.user_request) or prj.descriptor.to_dependency())
         removed = prj.attached_environment.uninstall(packages, force)
         Display.print(f"Packages Removed: {', '.join(removed)}")
 
-- 
2.43.0


From 65553bc7a2d6d18149b7d1d76a04b74f432630e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 58/70] fix: extras and markers of added dependencies reach the
 project file

---
 pkm-cli/src/pkm_cli/controllers/prj_controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/controllers/prj_controller.py b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
index f8fa191..4de0eb5 100644
--- a/pkm-cli/src/pkm_cli/controllers/prj_controller.py
+++ b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from dataclasses import replace
 from typing import Optional, List, Iterable, Dict
 
 from pkm.api.dependencies.dependency import Dependency
@@ -75,10 +76,13 @@ class PrjController:
             for dependency in dependencies:
                 if dependency.version_spec is AllowAllVersions:
                     installed = site_packages.installed_package(dependency.package_name)
+                    if not installed and dependency.env_marker:
+                        continue  # is not required in this environment
                     assert installed, f"could not find {dependency.package_name}"
                     dependency_index = seq(configured_dependencies) \
                         .index_of_matching(lambda it: it.package_name_key == dependency.package_name_key)
-                    configured_dependencies[dependency_index] = installed.descriptor.to_dependency(generalize=True)
+                    configured_dependencies[dependency_index] = replace(
+                        dependency, version_spec=installed.descriptor.to_dependency(generalize=True).version_spec)
 
             self.prj.config.save()
             self.prj.lock.update_lock(self.prj.attached_environment).save()
-- 
2.43.0


From 7ec5be258b33cf9ce999bbf88048fe2685fcd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:03 +0000
Subject: [PATCH 59/70] fix: optional dependencies with a marker are required
 by their group only

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 9b2327d..1a8c4cf 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -197,7 +197,7 @@ class ProjectConfig:
             extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
             for dep in deps:
                 if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
+                    new_marker = f"({str(dep.env_marker).rstrip(';')}) and " if dep.env_marker else ''
                     new_marker = f"{new_marker}extra==\'{od_group}\'"
                     all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                 else:
-- 
2.43.0


From 20b1f60b25deef6db0b258ff183c62caf2e336cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:59 +0000
Subject: [PATCH 60/70] fix: a user request that cannot be read is not taken
 for another one

---
 pkm/src/pkm/api/distributions/distinfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index ed5d49d..8ece61f 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -157,6 +157,10 @@ class DistInfo(Serializable):
     def load_user_requested_dependency(self) -> Optional[Dependency]:
         try:
             return Dependency.parse(self.user_requested_path().read_text().strip())
+        except OSError:
+            if self.is_user_requested():
+                raise  # the request is there but cannot be read, this is not the same as having no specific request
+            return None
         except:  # noqa
             return None
 
-- 
2.43.0


From 015d3abdf9b96c3834a6f75464f7f4c2b1069e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:41 +0000
Subject: [PATCH 61/70] fix: updating a package of a project is not prevented
 by its lock

---
 pkm/src/pkm/api/packages/package_installation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 7b23004..62a037e 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -158,6 +158,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         updates = {PackageDescriptor.package_name_key(u) for u in updates or ()}
         preinstalled_packages = list(self.site_packages.installed_packages())
+        updates.intersection_update(p.name_key for p in preinstalled_packages)
         retained_packages = [p for p in preinstalled_packages if p.name_key not in updates]
         pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         unspecified_spec_packages = \
@@ -177,7 +178,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
             installation_repo = _InstallationRepository(
-                repository, retained_packages, user_request, unspecified_spec_packages, True)
+                repository, retained_packages, user_request, unspecified_spec_packages, updates, True)
 
             installation = resolve_dependencies(
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
@@ -194,7 +195,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         if run_slow_path:
             # if we cannot we try the slow path in which we allow preinstalled packages dependencies to be updated
             installation_repo = _InstallationRepository(
-                repository, retained_packages, user_request, unspecified_spec_packages, False)
+                repository, retained_packages, user_request, unspecified_spec_packages, updates, False)
             installation = resolve_dependencies(
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
@@ -385,13 +386,14 @@ class _UserRequestPackage(Package):
 class _InstallationRepository(Repository, ABC):
     def __init__(
             self, repo: Repository, installed_packages: List[InstalledPackage], user_request: Package,
-            unspecified_spec_packages: Set[str], fast_plan_mode: bool):
+            unspecified_spec_packages: Set[str], updates: Set[str], fast_plan_mode: bool):
 
         assert repo, "no repository provided"
         self._user_request = user_request
         self._installed_packages: Dict[str, InstalledPackage] = {p.name_key: p for p in installed_packages}
         self._fast_plan_mode = fast_plan_mode
         self._unspecified_spec_packages = unspecified_spec_packages
+        self._updates = updates
         self._repo = repo
 
     def match(self, dependency: Union["Dependency", str], env: Environment) -> List[Package]:
@@ -407,6 +409,10 @@ class _InstallationRepository(Repository, ABC):
                 return [installed]
 
         packages = list(self._repo.match(dependency, env))
+        if dependency.package_name_key in self._updates:
+            # the latest version is requested, other preferences of the repository (e.g., of a lock) are not relevant
+            packages.sort(key=lambda it: it.version, reverse=True)
+
         if installed:
             packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
         elif packages and self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
-- 
2.43.0


From dbfd0f382a80d70f1bf4cc5bf1210703d0b60cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:51 +0000
Subject: [PATCH 62/70] fix: the root of a project group is its topmost parent

---
 pkm/src/pkm/api/projects/project_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index ee85537..79d31c5 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -68,7 +68,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
         :return: the top most parent of this project group
         """
-        return parent.root if (parent := self.parent) else None
+        return (parent.root or parent) if (parent := self.parent) else None
 
     @cached_property
     def children(self) -> Iterable[Union[Project, "ProjectGroup"]]:
-- 
2.43.0


From 9e8effd886060d3c3c3775a84132e8f2fb2e1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:51 +0000
Subject: [PATCH 63/70] fix: projects find their group through every path that
 leads to them

---
 pkm/src/pkm/api/projects/project_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index 79d31c5..01c3b94 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -152,7 +152,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
         if (pkm_project := project.config.pkm_project) and (group := pkm_project.group):
             return ProjectGroup(PyProjectGroupConfiguration.load(Path(project.path, group)))
-        return cls._find_group(project.path)
+        return cls._find_group(project.path.resolve())
 
     @classmethod
     def load(cls, path: Path) -> "ProjectGroup":
-- 
2.43.0


From 87c0a07e0bca9bd72f4d95481dfb4fad0204a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:51 +0000
Subject: [PATCH 64/70] fix: changing a project group keeps the rest of its
 file

---
 pkm/src/pkm/api/projects/project_group.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index 01c3b94..f380074 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -177,6 +177,7 @@ class PyProjectGroupConfiguration(ConfigFile):
     _name: str = config_field(key="name")
     children: List[Path] = config_field(default_factory=list)
     parent: Path = None
+    _leftovers = config_field(leftover=True)
 
     @property
     def resolved_children(self) -> Iterable[Path]:
-- 
2.43.0


From 7c5376ac1c2637b7473dc2f948fbd8b9dd8ede2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:51 +0000
Subject: [PATCH 65/70] fix: projects are offered only for requirements that
 their version fits

---
 pkm/src/pkm/api/repositories/repository_management.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 4f3d895..d0f89ba 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -278,7 +278,8 @@ class ProjectsRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         if not dependency.required_url():
             if matched_projects := self._packages.get(dependency.package_name_key):
-                return self._sorted_by_version([project for project in matched_projects])
+                return self._sorted_by_version([
+                    project for project in matched_projects if dependency.version_spec.allows_version(project.version)])
         if self._base_repo:
             return self._base_repo.match(dependency, env)
         return []
-- 
2.43.0


From d67b3de9323c229069220d95f8b080a4c6280063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:15 +0000
Subject: [PATCH 66/70] fix: project groups can be removed from their group by
 name

---
 pkm/src/pkm/api/projects/project_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index f380074..abfbee4 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -38,6 +38,10 @@ class ProjectGroup(HasAttachedRepository, Serializable):
     def __setstate__(self, state):
         return self.__init__(*state)
 
+    @property
+    def name(self) -> str:
+        return self._config.name
+
     @property
     def config(self) -> "PyProjectGroupConfiguration":
         return self._config
-- 
2.43.0


From 5ac5fd968de34bc1caecf00528faea95d8ba6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:28 +0000
Subject: [PATCH 67/70] fix: project groups always reflect their file

---
 pkm/src/pkm/api/projects/project_group.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index abfbee4..31ae960 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -111,8 +111,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
 
         project_path = project if isinstance(project, Path) else project.path
-        self._config.children.append(project_path)
-        self._config.save()
+        self._save_children([*self._config.children, project_path])
 
     def remove(self, project: Union[str, Path]):
         """
@@ -124,9 +123,19 @@ class ProjectGroup(HasAttachedRepository, Serializable):
 
         project = project.resolve()
 
-        self._config.children = [
-            p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project]
-        self._config.save()
+        self._save_children([
+            p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project])
+
+    def _save_children(self, children: List[Path]):
+        prev_children = self._config.children
+        self._config.children = children
+        try:
+            self._config.save()
+        except BaseException:
+            self._config.children = prev_children
+            raise
+
+        del self.children, self.project_children_recursive  # compute again
 
     def build_all(self):
         """
-- 
2.43.0


From 4a17e8ad5278be8f0447c5aa3ab460a598727f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:29 +0000
Subject: [PATCH 68/70] fix: adding a child of a project group again does not
 list it twice

---
 pkm/src/pkm/api/projects/project_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index 31ae960..915088e 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -111,7 +111,8 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
 
         project_path = project if isinstance(project, Path) else project.path
-        self._save_children([*self._config.children, project_path])
+        if self.path.joinpath(project_path).resolve() not in self._config.resolved_children:
+            self._save_children([*self._config.children, project_path])
 
     def remove(self, project: Union[str, Path]):
         """
-- 
2.43.0


From 88eec85ccb41510e10d8bd3e1dcb760d680d03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 69/70] fix: the names of the children of a project group are
 compared normalized

---
 pkm/src/pkm/api/projects/project_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index 915088e..f783147 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from pathlib import Path
 from typing import Iterable, Union, Optional, List, TYPE_CHECKING
 
+from pkm.api.packages.package import PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository
 from pkm.api.projects.environments_config import EnvironmentsConfiguration, ENVIRONMENT_CONFIGURATION_PATH
 from pkm.api.projects.project import Project
@@ -120,7 +121,8 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :param project: the project name or path to remove
         """
         if isinstance(project, str):
-            project = single_or_raise(p for p in self.children if p.name == project).path
+            key = PackageDescriptor.package_name_key(project)
+            project = single_or_raise(p for p in self.children if PackageDescriptor.package_name_key(p.name) == key).path
 
         project = project.resolve()
 
-- 
2.43.0


From 5e6be3bf9ac75728ee9cde2d18cb7bafa34d9c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 70/70] fix: concurrent fetches of a url share one request
 however the url is spelled

---
 pkm/src/pkm/utils/http/http_client.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 0f8bbad..acf5cca 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -436,6 +436,7 @@ class HttpClient:
                 cache = CacheDirective.allways()
 
             cache_files = self._resource_files_of(parsed_url)
+            resource_key = str(parsed_url)  # the same resource, however its url was spelled
 
             def _use_cached_data() -> bool:
                 return cache.is_cache_valid(cache_files.load_fetch_info()) and cache_files.exists()
@@ -450,7 +451,7 @@ class HttpClient:
                 # If I am already requesting this url - no need to actually do it twice, note that
                 # this may pose a problem if one of the recipients will delete the files, if it revealed to be a problem
                 # we can fix it by adding a ref-counting delete operation for the FetchedResource for example
-                promise = self._fetch_inprogress.get(url)
+                promise = self._fetch_inprogress.get(resource_key)
 
                 if not promise:
                     # may have been downloaded since checked, note that only actual requests should be shared with others
@@ -494,7 +495,7 @@ class HttpClient:
                         return cache_files
 
                     deffered: Deferred[Optional[FetchedResource]] = Deferred()
-                    promise = self._fetch_inprogress[url] = deffered.promise()
+                    promise = self._fetch_inprogress[resource_key] = deffered.promise()
 
             if cached:
                 mop.notify(FetchResourceCacheHitEvent())
@@ -507,7 +508,7 @@ class HttpClient:
                 err = e
 
             with self._fetch_lock:
-                del self._fetch_inprogress[url]
+                del self._fetch_inprogress[resource_key]
 
             if err is None:
                 deffered.complete(resource)
@@ -529,7 +530,7 @@ class HttpClient:
         :return: the fetched resource or None if its content does not have the required hash
         """
         with self._fetch_lock:
-            verification_lock = get_or_put(self._verification_locks, url, Lock)
+            verification_lock = get_or_put(self._verification_locks, str(Url.parse(url)), Lock)
 
         with verification_lock:  # a verified content should not be replaced by others that are verifying it
             for cache in (CacheDirective.allways(), CacheDirective.never()):
-- 
2.43.0

