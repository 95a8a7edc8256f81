From 2dbd81ba3e105e5492398a6c806a246f8f4fbdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 01/89] fix: parallel no longer leaks unhandled rejections of
 promise tasks waiting for a worker

---
 packages/function/src/control/parallel.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/control/parallel.ts b/packages/function/src/control/parallel.ts
index 4c077b7..80f00b5 100644
--- a/packages/function/src/control/parallel.ts
+++ b/packages/function/src/control/parallel.ts
@@ -1,4 +1,4 @@
-import { isAnyError, isFunction } from '@curong/types';
+import { isAnyError, isFunction, isPromise } from '@curong/types';
 
 import retry from '../catch/retry';
 import { toPromise } from '../promise';
@@ -45,6 +45,10 @@ export default async function parallel<T>(
     const ret: any[] = [];
     let index = 0;
 
+    // 如果任务本身就是 `Promise`，则它可能在轮到它之前就已经失败了
+    // 这里先标记为已处理，防止出现未捕获的异常，真正的错误会在执行该任务时抛出
+    tasks.forEach(task => isPromise(task) && task.catch(() => {}));
+
     const runTask = async (task: unknown, i: number) => {
         try {
             return await toPromise(task);
-- 
2.43.0


From 0a6fd2b3e8ec7908e3dc22dbbc516a7fcc087159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 02/89] fix: memoizeWithAsync clear/delete also invalidate
 computations in flight

---
 .../function/src/cache/memoizeWithAsync.ts    | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/packages/function/src/cache/memoizeWithAsync.ts b/packages/function/src/cache/memoizeWithAsync.ts
index ddf5400..00c9ef4 100644
--- a/packages/function/src/cache/memoizeWithAsync.ts
+++ b/packages/function/src/cache/memoizeWithAsync.ts
@@ -80,22 +80,34 @@ function memoizeWithAsync<F extends (...args: any[]) => any, K>(
         queues.set(key, promise);
 
         try {
-            const value = await queues.get(key)!;
-            cache.set(key, {
-                value,
-                expiration: isTimeoutMs ? Date.now() + timeoutMs : NaN
-            });
+            const value = await promise;
+
+            // 如果在执行期间该缓存已经被清除或删除，则不能再缓存这个已经失效的结果
+            if (queues.get(key) === promise) {
+                cache.set(key, {
+                    value,
+                    expiration: isTimeoutMs ? Date.now() + timeoutMs : NaN
+                });
+            }
+
             return value;
         } finally {
-            queues.delete(key);
+            if (queues.get(key) === promise) {
+                queues.delete(key);
+            }
         }
     }) as MemoizeWithReturn<F, K>;
 
     memoized.cache = cache;
-    memoized.clear = () => cache.clear();
+    memoized.clear = () => {
+        cache.clear();
+        queues.clear();
+    };
     memoized.delete = (...args: Parameters<F>) => {
         const key = harsher(...args);
 
+        queues.delete(key);
+
         if (cache.has(key)) {
             cache.delete(key);
         }
-- 
2.43.0


From 43dd49a03d89e5f22a8fb8a7bb4d5516055f61de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 03/89] fix: collectItems no longer loses or duplicates items
 pushed while a batch is resolving

---
 packages/function/src/control/collectItems.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index 91c3b3b..b380e07 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -87,17 +87,18 @@ export default function collectItems(options?: any) {
             ((isUndefined(total) && isDoneOnce) ||
                 (isUint(total) && !(promises.length % total)))
         ) {
-            return await Promise.all(promises).then(value => {
-                if (!isRestart) {
-                    isOverOnce = true;
-                }
+            // 在等待结果之前就应该关闭本次收集，防止在等待期间新增的项丢失或重复
+            const batch = promises.slice();
 
-                if (!isAccumulate) {
-                    promises.length = 0;
-                }
+            if (!isRestart) {
+                isOverOnce = true;
+            }
 
-                return { done: true, value };
-            });
+            if (!isAccumulate) {
+                promises.length = 0;
+            }
+
+            return { done: true, value: await Promise.all(batch) };
         }
 
         return { done: false, value: void 0 };
-- 
2.43.0


From 58e0f6c06b88e4262d20aa44dfaa845098cc45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 04/89] fix: timeoutOr clears its timer when the callable fails
 and keeps to the fallback once timed out

---
 packages/function/src/timeout/timeoutOr.ts | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..005b99f 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -31,16 +31,19 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
         | undefined,
     ...args: A
 ) {
+    const promise = toPromise(callable, args);
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
+
+    try {
+        return await new Promise((resolve, reject) => {
+            promise.then(resolve, reject);
+
             timer = setTimeout(
                 () => resolve(executeToPromise(callback, args)),
                 timeoutMsResolve(duration)
             );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+        });
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0


From 4f41a1863d866ed41d5c158da770d00c6841a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 05/89] fix: cancelExec passes its arguments to the task and
 runs only the first cancel payload

---
 packages/function/src/control/cancelExec.ts | 34 +++++++++++++++------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..c189f64 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -40,13 +40,29 @@ export default function cancelExec<R, A extends unknown[]>(
 ): [Promise<R>, (payload?: Payload<R, A>) => void] {
     let abort: (payload?: Payload<R, A>) => void;
 
-    return [
-        Promise.race([
-            toPromise(callable),
-            new Promise(resolve => {
-                abort = payload => resolve(toPromise(payload, args));
-            })
-        ]),
-        abort!
-    ];
+    const promise = new Promise<R>((resolve, reject) => {
+        let isSettled = false;
+
+        toPromise<A, R>(callable, args).then(
+            data => {
+                isSettled = true;
+                resolve(data);
+            },
+            e => {
+                isSettled = true;
+                reject(e);
+            }
+        );
+
+        abort = payload => {
+            if (isSettled) {
+                return;
+            }
+
+            isSettled = true;
+            resolve(toPromise<A, R>(payload, args));
+        };
+    });
+
+    return [promise, abort!];
 }
-- 
2.43.0


From 1410e5980823b081d47bef9ba9ba361195e979b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 06/89] fix: random durations can take every value of their
 range

---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index fc7fc04..0a49fff 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(end, start)
-                          : range(start, end);
+                          ? range(start, end)
+                          : range(end, start);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From 1ab2848dec6b20195a642598f1f4576324e03e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 07/89] fix: delayReturn keeps the minimum duration on failure
 whatever the wall clock does

---
 packages/function/src/delay/delayReturn.ts | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/packages/function/src/delay/delayReturn.ts b/packages/function/src/delay/delayReturn.ts
index c05e673..87516b9 100644
--- a/packages/function/src/delay/delayReturn.ts
+++ b/packages/function/src/delay/delayReturn.ts
@@ -19,17 +19,11 @@ export default function delayReturn<R, A extends unknown[]>(
     ...args: A
 ) {
     const paddingMs = timeoutMsResolve(duration);
-    const start = Date.now();
+    const promise = toPromise<A, R>(task, args);
+    const padding = delay(paddingMs);
 
-    return Promise.all([toPromise(task, args), delay(paddingMs)])
-        .then(([result]) => result)
-        .catch(error => {
-            const elapsed = Date.now() - start;
-
-            if (elapsed > paddingMs) {
-                throw error;
-            }
-
-            return delay(paddingMs - elapsed).then(() => Promise.reject(error));
-        });
+    return promise.then(
+        result => padding.then(() => result),
+        error => padding.then(() => Promise.reject(error))
+    );
 }
-- 
2.43.0


From 7063a3e955ec9236ee65e6eecc92835f2ee920cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 08/89] fix: select passes its arguments to the condition

---
 packages/function/src/select/select.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/select/select.ts b/packages/function/src/select/select.ts
index a712db0..7341a3f 100644
--- a/packages/function/src/select/select.ts
+++ b/packages/function/src/select/select.ts
@@ -24,7 +24,7 @@ export default async function select<A extends unknown[], T>(
     doElse?: ((...args: A) => any) | Promise<any> | T | null | undefined,
     ...args: A
 ): Promise<T | null | undefined> {
-    return (await executeToPromise(condition))
+    return (await executeToPromise(condition, args))
         ? executeToPromise(doIf, args)
         : executeToPromise(doElse, args);
 }
-- 
2.43.0


From 2b3855d730b8868fd1d7733c5ddf41827643b840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 09/89] fix: nextTick over a mutation observer no longer throws
 after a batch of callbacks

---
 packages/function/src/timeout/nextTick.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index 3b6c1e0..de3f3ff 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -39,7 +39,7 @@ const byObserver = (
 
         node.data = `${(bit = ++bit % 2)}`;
 
-        while (i < currentQueue.length) {
+        while (currentQueue && i < currentQueue.length) {
             callback = currentQueue[i];
             i++;
             if (i === currentQueue.length) currentQueue = null;
-- 
2.43.0


From 5d993974331899d4b66bbdbbc0ae0f135f4077ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 10/89] fix: nextTick over a mutation observer does not rerun
 callbacks after one of them threw

---
 packages/function/src/timeout/nextTick.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/timeout/nextTick.ts b/packages/function/src/timeout/nextTick.ts
index de3f3ff..3d3b032 100644
--- a/packages/function/src/timeout/nextTick.ts
+++ b/packages/function/src/timeout/nextTick.ts
@@ -21,7 +21,7 @@ const byObserver = (
 
         if (!queue) {
             if (!currentQueue) return;
-            queue = currentQueue;
+            queue = currentQueue.slice(i);
         } else if (currentQueue) {
             queue = currentQueue.slice(i).concat(queue);
         }
-- 
2.43.0


From ff676eeaaa598bd8f122bb874eb504c397ba046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 11/89] fix: parallel iteration handles a synchronously
 throwing callback like any failure

---
 packages/array/src/each/eachParallel.ts      | 3 ++-
 packages/array/src/each/eachRightParallel.ts | 3 ++-
 packages/array/src/map/mapParallel.ts        | 3 ++-
 packages/array/src/map/mapRightParallel.ts   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/array/src/each/eachParallel.ts b/packages/array/src/each/eachParallel.ts
index c46ca35..9725ca6 100644
--- a/packages/array/src/each/eachParallel.ts
+++ b/packages/array/src/each/eachParallel.ts
@@ -21,7 +21,8 @@ export default async function eachParallel<T>(
     const promises: (Promise<void> | void)[] = [];
 
     for (let index = 0; index < value.length; index++) {
-        promises.push(callback(value[index], index, value));
+        // 同步抛出的错误也要转换为 `Promise`，否则之前已开始的任务的错误将无人处理
+        promises.push((async () => callback(value[index], index, value))());
     }
 
     await Promise.all(promises);
diff --git a/packages/array/src/each/eachRightParallel.ts b/packages/array/src/each/eachRightParallel.ts
index 3c65ebc..c0bc1df 100644
--- a/packages/array/src/each/eachRightParallel.ts
+++ b/packages/array/src/each/eachRightParallel.ts
@@ -22,7 +22,8 @@ export default async function eachRightParallel<T>(
     let length = value.length;
 
     while (length--) {
-        promises.push(callback(value[length], length, value));
+        // 同步抛出的错误也要转换为 `Promise`，否则之前已开始的任务的错误将无人处理
+        promises.push((async () => callback(value[length], length, value))());
     }
 
     await Promise.all(promises);
diff --git a/packages/array/src/map/mapParallel.ts b/packages/array/src/map/mapParallel.ts
index a391b0b..e509888 100644
--- a/packages/array/src/map/mapParallel.ts
+++ b/packages/array/src/map/mapParallel.ts
@@ -22,7 +22,8 @@ export default async function mapParallel<T, R>(
     const result: (Promise<R> | R)[] = [];
 
     for (let index = 0; index < value.length; index++) {
-        result.push(callback(value[index], index, value));
+        // 同步抛出的错误也要转换为 `Promise`，否则之前已开始的任务的错误将无人处理
+        result.push((async () => callback(value[index], index, value))());
     }
 
     return await Promise.all(result);
diff --git a/packages/array/src/map/mapRightParallel.ts b/packages/array/src/map/mapRightParallel.ts
index 87bc918..2982975 100644
--- a/packages/array/src/map/mapRightParallel.ts
+++ b/packages/array/src/map/mapRightParallel.ts
@@ -22,7 +22,8 @@ export default async function mapRightParallel<T, R>(
     const result: (Promise<R> | R)[] = [];
 
     for (let i = value.length - 1; i >= 0; i--) {
-        result.push(callback(value[i], i, value));
+        // 同步抛出的错误也要转换为 `Promise`，否则之前已开始的任务的错误将无人处理
+        result.push((async () => callback(value[i], i, value))());
     }
 
     return await Promise.all(result);
-- 
2.43.0


From ee7f2c745d62db84de9fefd2ccbe196baba6218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 12/89] fix: created directories can be entered by their owner

---
 packages/fs/src/mkdir.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/mkdir.ts b/packages/fs/src/mkdir.ts
index 2c4c287..10971b5 100644
--- a/packages/fs/src/mkdir.ts
+++ b/packages/fs/src/mkdir.ts
@@ -10,7 +10,7 @@ import { format } from '@curong/term';
  *
  * 包括:
  * - `recursive` 指示是否应创建父文件夹，默认为 `true`
- * - `mode` 权限，默认为 `0o644`
+ * - `mode` 权限，默认为 `0o755`
  *
  * @throws
  *
@@ -23,7 +23,7 @@ export default async function mkdir(
 ): Promise<string | undefined> {
     options = {
         recursive: true,
-        mode: 0o644,
+        mode: 0o755,
         ...options
     };
 
-- 
2.43.0


From 04a5012980487e1ab986c9fee7b18fd09ca97a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 13/89] fix: copy reproduces symbolic links instead of failing
 on them or following them

---
 packages/fs/src/copy.ts             | 9 ++++-----
 packages/fs/src/copySymbolicLink.ts | 6 +++---
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..3fa0a67 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -56,11 +56,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await symbolicLink(fromPath)) {
+        return await copySymbolicLink(fromPath, toPath);
     }
 
     // 如果源是文件
@@ -112,8 +111,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await symbolicLink(from)) {
+            await copySymbolicLink(from, to);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
diff --git a/packages/fs/src/copySymbolicLink.ts b/packages/fs/src/copySymbolicLink.ts
index d24fa9c..1707dfd 100644
--- a/packages/fs/src/copySymbolicLink.ts
+++ b/packages/fs/src/copySymbolicLink.ts
@@ -1,5 +1,5 @@
 import { symlink } from 'fs/promises';
-import { dirname } from 'path';
+import { dirname, resolve } from 'path';
 
 import { format } from '@curong/term';
 
@@ -50,8 +50,8 @@ export default async function copySymbolicLink(
         type = null;
     }
 
-    // 创建符号链接
-    await symlink(fromPath, toPath, type).catch(error => {
+    // 创建符号链接，相对路径会相对于 toPath 所在的文件夹解析，所以这里需要转换为绝对路径
+    await symlink(resolve(fromPath), toPath, type).catch(error => {
         throw format({
             name,
             message: '拷贝符号链接失败，无法将fromPath拷贝到toPath',
-- 
2.43.0


From a2786031387ccca4f8efd5d4a19f1d6ae523388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 14/89] fix: copy classifies the source by itself and applies
 its options at every depth

---
 packages/fs/src/copy.ts | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 3fa0a67..073d6ee 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -7,7 +7,6 @@ import copySymbolicLink from './copySymbolicLink';
 import isDir from './isDir';
 import isFile from './isFile';
 import mkdir from './mkdir';
-import symbolicLink from './symbolicLink';
 import type { CopyFileOptions } from './types';
 
 const _copyFile = async (from: string, to: string, forcibly = false) => {
@@ -57,18 +56,26 @@ export default async function copy(
     const name = 'copy';
     const { forcibly = true } = options ?? {};
 
+    const fromStat = await lstat(fromPath).catch(error => {
+        throw format({
+            name,
+            message: '读取fromPath的状态失败',
+            data: { fromPath, toPath, error }
+        });
+    });
+
     // 如果源是符号链接
-    if (await symbolicLink(fromPath)) {
+    if (fromStat.isSymbolicLink()) {
         return await copySymbolicLink(fromPath, toPath);
     }
 
     // 如果源是文件
-    if (await isFile(fromPath)) {
+    if (fromStat.isFile()) {
         return await _copyFile(fromPath, toPath, forcibly);
     }
 
     // 如果源不是一个文件夹
-    if (!(await isDir(fromPath))) {
+    if (!fromStat.isDirectory()) {
         throw format({
             name,
             message: `fromPath不是一个文件或文件夹`,
@@ -102,28 +109,7 @@ export default async function copy(
         });
     });
 
-    let path: string;
-    let from: string;
-    let to: string;
-
     for (let i = 0, len = paths.length; i < len; i++) {
-        path = paths[i];
-        from = join(fromPath, path);
-        to = join(toPath, path);
-
-        if (await symbolicLink(from)) {
-            await copySymbolicLink(from, to);
-        } else if (await isFile(from)) {
-            await _copyFile(from, to, forcibly);
-        } else if (await isDir(from)) {
-            await copy(from, to);
-        } else {
-            throw format({
-                name,
-                message:
-                    '无法将from拷贝到to，from不是一个文件、文件夹或符号链接',
-                data: { fromPath, toPath, from, to }
-            });
-        }
+        await copy(join(fromPath, paths[i]), join(toPath, paths[i]), options);
     }
 }
-- 
2.43.0


From 3d8fd93ad26b06ed8022f7cf60ab57bf82c193e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 15/89] fix: copy refuses to copy a directory into itself

---
 packages/fs/src/copy.ts | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 073d6ee..82e1e43 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,5 +1,5 @@
 import { copyFile, lstat, readdir } from 'fs/promises';
-import { dirname, join } from 'path';
+import { dirname, isAbsolute, join, relative, sep } from 'path';
 
 import { format } from '@curong/term';
 
@@ -44,6 +44,7 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
  *
  * - 如果 `fromPath` 不是文件、文件夹、符号链接则会抛出异常
  * - 如果 `toPath` 名被占用且 `toPath` 不是文件夹则会抛出异常
+ * - 如果 `toPath` 在文件夹 `fromPath` 的内部则会抛出异常
  * - 如果读取文件夹失败则会抛出异常
  * - 如果拷贝文件失败则会抛出异常
  * - 如果拷贝符号链接失败则会抛出异常
@@ -83,6 +84,22 @@ export default async function copy(
         });
     }
 
+    const inner = relative(fromPath, toPath);
+
+    // 如果目标在源文件夹的内部，那么会无限地拷贝自己
+    if (
+        inner !== '' &&
+        inner !== '..' &&
+        !inner.startsWith('..' + sep) &&
+        !isAbsolute(inner)
+    ) {
+        throw format({
+            name,
+            message: '无法将文件夹拷贝到它自己的内部',
+            data: { fromPath, toPath }
+        });
+    }
+
     const toPathStat = await lstat(toPath).catch(() => null);
 
     // 如果目标名已经被占用并且目标不是一个文件夹
-- 
2.43.0


From 1ad3531e446924695ec293484e761b98fcebefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 16/89] fix: copy without overwriting never replaces a file
 created meanwhile

---
 packages/fs/src/copy.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 82e1e43..bb16083 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,3 +1,4 @@
+import { constants } from 'fs';
 import { copyFile, lstat, readdir } from 'fs/promises';
 import { dirname, isAbsolute, join, relative, sep } from 'path';
 
@@ -22,7 +23,15 @@ const _copyFile = async (from: string, to: string, forcibly = false) => {
         await mkdir(toDir);
     }
 
-    return await copyFile(from, to).catch(error => {
+    // 不想强制写入时，由系统保证不会覆盖已经存在的文件
+    const mode = forcibly ? 0 : constants.COPYFILE_EXCL;
+
+    return await copyFile(from, to, mode).catch(async error => {
+        // 如果目标文件在检查之后才被创建
+        if (!forcibly && error.code === 'EEXIST' && (await isFile(to))) {
+            return;
+        }
+
         throw format({
             name: '_copyFile',
             message: '拷贝文件失败，无法将from拷贝到to',
-- 
2.43.0


From 23dd2480435a242314970cd383b77b08da30f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 17/89] fix: diffFile compares exactly the bytes read and
 closes its files when reading fails

---
 packages/fs/src/diffFile.ts | 53 ++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..0685a1e 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -22,9 +22,23 @@ export default async function diffFile(
 
     const readChunk = async (fd: number) => {
         const buffer = Buffer.alloc(highWorkMark);
-        const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
+        let length = 0;
+
+        // 每次读取到的字节数有可能小于请求的字节数
+        while (length < highWorkMark) {
+            const readBytes = readSync(
+                fd,
+                buffer,
+                length,
+                highWorkMark - length,
+                position + length
+            );
+
+            if (isZero(readBytes)) break;
+            length += readBytes;
+        }
 
-        return isZero(readBytes) ? null : buffer;
+        return isZero(length) ? null : buffer.subarray(0, length);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
@@ -43,27 +57,28 @@ export default async function diffFile(
     const fd1 = fileHandle1.fd;
     const fd2 = fileHandle2.fd;
 
-    while (true) {
-        const chunk1 = await readChunk(fd1);
-        const chunk2 = await readChunk(fd2);
-        const nullChunk1 = isNull(chunk1);
-        const nullChunk2 = isNull(chunk2);
+    try {
+        while (true) {
+            const chunk1 = await readChunk(fd1);
+            const chunk2 = await readChunk(fd2);
+            const nullChunk1 = isNull(chunk1);
+            const nullChunk2 = isNull(chunk2);
 
-        if (nullChunk1 && nullChunk2) {
-            break;
-        }
+            if (nullChunk1 && nullChunk2) {
+                break;
+            }
 
-        if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
-            compared = false;
-            break;
-        }
+            if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
+                compared = false;
+                break;
+            }
 
-        position += highWorkMark;
+            position += highWorkMark;
+        }
+    } finally {
+        // 关闭文件描述符，读取失败时也要关闭
+        await Promise.all([fileHandle1.close(), fileHandle2.close()]);
     }
 
-    // 关闭文件描述符
-    await fileHandle1.close();
-    await fileHandle2.close();
-
     return compared;
 }
-- 
2.43.0


From 2ae1d3a30874081063c5fd0fc2611501d12ab3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 18/89] fix: copyFile never deletes its source when the copy
 fails

---
 packages/fs/src/copyFile.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..792850b 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -3,7 +3,6 @@ import { promises } from 'fs';
 import { format } from '@curong/term';
 import { isTrue } from '@curong/types';
 
-import deleteOne from './deleteOne';
 import destPath from './destPath';
 import diffFile from './diffFile';
 import type { CopyFileOptions } from './types';
@@ -49,7 +48,9 @@ export default async function copyFile(
             await promises.copyFile(filePath, destString);
         } catch (error) {
             if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+                // 只删除无法写入的目标文件，而不是源文件
+                await promises.unlink(destString).catch(() => null);
+
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From d82d9f14dc31e9aa1a782972dfd805e5dd914e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:26 +0000
Subject: [PATCH 19/89] fix: deleteOne removes links, pipes and other special
 entries themselves

---
 packages/fs/src/deleteOne.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/fs/src/deleteOne.ts b/packages/fs/src/deleteOne.ts
index 8c663aa..594796c 100644
--- a/packages/fs/src/deleteOne.ts
+++ b/packages/fs/src/deleteOne.ts
@@ -1,10 +1,7 @@
-import { rmdir, unlink } from 'fs/promises';
+import { lstat, rmdir, unlink } from 'fs/promises';
 
 import { format } from '@curong/term';
 
-import isDir from './isDir';
-import isFile from './isFile';
-
 /**
  * 删除一个文件或一个文件夹
  *
@@ -14,11 +11,14 @@ import isFile from './isFile';
  * - 如果 `pathString` 不是一个有效路径，则会抛出异常
  */
 export default async function deleteOne(pathString: string): Promise<void> {
-    if (await isDir(pathString)) {
+    // 不能跟随符号链接，需要删除的是链接自身，而不是链接的目标
+    const stats = await lstat(pathString).catch(() => null);
+
+    if (stats?.isDirectory()) {
         return await rmdir(pathString, { recursive: true });
     }
 
-    if (await isFile(pathString)) {
+    if (stats) {
         return await unlink(pathString);
     }
 
-- 
2.43.0


From d1a48db9a7c8fc838274cfc26b5dacf1e55da7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 20/89] fix: fileList lists shortcut files that cannot be
 resolved, readLnk rejects where it cannot work

---
 packages/fs/src/fileList.ts | 19 ++++++++++---------
 packages/fs/src/readLnk.ts  |  2 +-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index 306f37c..cfa0242 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -54,17 +54,18 @@ export default async function fileList(
         // 如果是一个Windows的快捷方式
         if (extname(absolutePath) === '.lnk') {
             const targetPath = await readLnk(absolutePath).catch(() => null);
-            if (!targetPath) continue;
+            // 无法解析的快捷方式只是一个普通的文件
+            if (targetPath) {
+                if (extname(targetPath) === '') {
+                    // 如果是文件夹
+                    files.push(...(await fileList(targetPath)));
+                } else {
+                    // 不是文件夹，那么就是文件了
+                    files.push(targetPath);
+                }
 
-            if (extname(targetPath) === '') {
-                // 如果是文件夹
-                files.push(...(await fileList(targetPath)));
-            } else {
-                // 不是文件夹，那么就是文件了
-                files.push(targetPath);
+                continue;
             }
-
-            continue;
         }
 
         // 是文件夹
diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 3bd2d50..0b480ae 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -29,7 +29,7 @@ export default async function readLnk(pathString: string): Promise<string> {
     pathString = normalize(pathString);
 
     if (platform !== 'win32') {
-        return format({
+        throw format({
             name: 'readLnk',
             message: '无法解析不是 ".lnk" 后缀的文件',
             data: { pathString }
-- 
2.43.0


From 4c83b9f9aef2be05ca1d553c725295bdfbcae858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 21/89] fix: Windows shortcuts are resolved

---
 packages/fs/src/readLnk.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 0b480ae..1726ae5 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -4,7 +4,6 @@ import { platform } from 'process';
 import { promisify } from 'util';
 
 import { format } from '@curong/term';
-import { isNull } from '@curong/types';
 
 /**
  * 拼接适用于 `Windows` 的命令
@@ -41,7 +40,7 @@ export default async function readLnk(pathString: string): Promise<string> {
         encoding: 'utf8'
     });
 
-    if (!isNull(stderr)) {
+    if (stderr) {
         throw format({
             name: 'readLnk',
             message: '"lnk" 文件解析失败',
@@ -49,5 +48,6 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    return stdout;
+    // 命令的输出会以换行符结尾
+    return stdout.trim();
 }
-- 
2.43.0


From ddabf74e1a3599616e79166eae26f45d6b819630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 22/89] fix: readlineStream returns an empty list for an empty
 file

---
 packages/fs/src/readlineStream.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 1f8489c..cb25ca1 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -40,12 +40,15 @@ export default async function readlineStream(
     }
 
     const ret: string[] = [];
+    /** 是否传递了回调函数 */
+    let hasCallback = true;
 
     if (!isFunctionFilled(callback)) {
         if (isFunctionFilled(encoding)) {
             callback = encoding;
             encoding = 'utf8';
         } else {
+            hasCallback = false;
             callback = (input: string) => ret.push(input);
             encoding = encoding ?? 'utf8';
         }
@@ -67,11 +70,7 @@ export default async function readlineStream(
         stream.once('close', () => {
             stream.removeAllListeners();
 
-            if (ret.length > 0) {
-                return resolve(ret);
-            }
-
-            return resolve(true);
+            return resolve(hasCallback ? true : ret);
         });
     });
 }
-- 
2.43.0


From b7fa1b806c7fad7845f18f986dca6bbb7bb0d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 23/89] fix: readlineStream rejects when reading fails

---
 packages/fs/src/readlineStream.ts | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index cb25ca1..60e5c20 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -25,6 +25,7 @@ import type { ReadlineStreamCallback } from './types';
  * @throws
  *
  * - 如果 `pathString` 不是文件路径，则会抛出异常
+ * - 如果读取文件失败，则会抛出异常
  */
 export default async function readlineStream(
     pathString: string,
@@ -54,16 +55,30 @@ export default async function readlineStream(
         }
     }
 
-    return new Promise(resolve => {
-        const stream = createInterface({
-            input: createReadStream(pathString, {
-                encoding: encoding as BufferEncoding,
-                flags: 'r+',
-                mode: 0o755,
-                autoClose: true,
-                highWaterMark: 64 * 1024
-            })
+    return new Promise((resolve, reject) => {
+        const input = createReadStream(pathString, {
+            encoding: encoding as BufferEncoding,
+            flags: 'r+',
+            mode: 0o755,
+            autoClose: true,
+            highWaterMark: 64 * 1024
         });
+        const stream = createInterface({ input });
+
+        // 读取失败，不同版本的 `node` 可能会由 input 或 stream 来触发错误
+        const onError = (error: Error) => {
+            reject(
+                format({
+                    name: 'readlineStream',
+                    message: '读取文件失败',
+                    data: { pathString, error }
+                })
+            );
+            stream.close();
+        };
+
+        input.once('error', onError);
+        stream.once('error', onError);
 
         stream.on('line', callback as ReadlineStreamCallback);
 
-- 
2.43.0


From a250fa88290ef893b98080db5226b8e593d9a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 24/89] fix: readlineStream treats CRLF as one line break
 however late the LF arrives

---
 packages/fs/src/readlineStream.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/readlineStream.ts b/packages/fs/src/readlineStream.ts
index 60e5c20..91ce2ef 100644
--- a/packages/fs/src/readlineStream.ts
+++ b/packages/fs/src/readlineStream.ts
@@ -63,7 +63,8 @@ export default async function readlineStream(
             autoClose: true,
             highWaterMark: 64 * 1024
         });
-        const stream = createInterface({ input });
+        // 无论两次读取间隔多久，`\r\n` 都是同一个换行
+        const stream = createInterface({ input, crlfDelay: Infinity });
 
         // 读取失败，不同版本的 `node` 可能会由 input 或 stream 来触发错误
         const onError = (error: Error) => {
-- 
2.43.0


From 22c13ac4d39a86e7e3e2f8acf835860d88906b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 25/89] fix: readFragment returns the first line when asked for
 it

---
 packages/fs/src/readFragment.ts | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/packages/fs/src/readFragment.ts b/packages/fs/src/readFragment.ts
index 37144ff..a518b3f 100644
--- a/packages/fs/src/readFragment.ts
+++ b/packages/fs/src/readFragment.ts
@@ -48,15 +48,11 @@ export default function readFragment(
 
             readStream.on('error', error => reject(error));
 
-            readStream.on('data', chunk => {
-                if (firstLine) {
-                    return chunk;
-                }
+            readStream.on('data', chunk => (data += chunk));
 
-                return (data += chunk);
-            });
-
-            readStream.on('end', () => resolve(data));
+            readStream.on('end', () =>
+                resolve(firstLine ? data.split(/\r?\n/, 1)[0] : data)
+            );
         } else {
             return resolve();
         }
-- 
2.43.0


From 08aee3bdf7ae534628145d54e799be52efe71414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 26/89] fix: deflate responses with a window smaller than 32K
 are decoded

---
 packages/request/src/request/content.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index 23125f6..25953bb 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -44,7 +44,8 @@ export function pipeDecompressStream(res: IncomingMessage): IncomingMessage {
             if (chunk.length !== 0) {
                 this._transform = this.__transform;
 
-                if (chunk[0] !== 0x78) {
+                // 低 4 位是压缩方法，高 4 位是窗口大小（不一定是 7）
+                if ((chunk[0] & 0x0f) !== 0x08) {
                     const header = Buffer.alloc(2);
                     header[0] = 0x78;
                     header[1] = 0x9c;
-- 
2.43.0


From 1f66a7eeeb4b51e1ef30562ea0f9a12a4777ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 27/89] fix: a connection that was asked to close is not reused
 by the next request

---
 packages/request/src/request/options.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 94bdcd0..1486bca 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -210,5 +210,10 @@ export const optionsHandler = (
     // 可包含完整的 URL 路径（包括协议、主机名、端口、路径等），后面不要加 `/` 了
     options.headers.referer ??= origin;
 
+    // 服务器会在响应之后关闭 `Connection: close` 的连接，所以它不能被全局的 `agent` 放回连接池中复用
+    if (/close/i.test(`${options.headers.connection}`)) {
+        options.agent ??= false;
+    }
+
     return isTrue(https) ? HttpsRequest : HttpRequest;
 };
-- 
2.43.0


From 779942b6ad24db26b0ffceff27b0a2f319b06efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 28/89] fix: a failing response rejects with an Error

---
 packages/request/src/request/request.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..be51558 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -262,7 +262,7 @@ export default async function request(
             const serialStream = pipeDecompressStream(res);
 
             /** 创建返回的数据对象 */
-            const returns = async (error?: Error) => {
+            const returns = (error?: Error) => {
                 req.destroy();
 
                 const data = Buffer.concat(buffers);
@@ -297,7 +297,11 @@ export default async function request(
             });
 
             serialStream.on('end', () => resolve(returns()));
-            serialStream.on('error', e => reject(returns(e)));
+            serialStream.on('error', e =>
+                reject(
+                    new Error('[request] 当前响应出错', { cause: returns(e) })
+                )
+            );
         });
 
         req.on('timeout', () => {
-- 
2.43.0


From 14410c97f8f2bbd64f762913d99f04296575f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:39 +0000
Subject: [PATCH 29/89] fix: redirects to relative or invalid addresses

---
 packages/request/src/request/options.ts |  5 +++++
 packages/request/src/request/request.ts | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 1486bca..cd71291 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -165,6 +165,11 @@ const urlToParams = (baseUrl: string, options: RequestOptions) => {
         search
     } = urlParams;
 
+    if (!/^https?:$/.test(protocol)) {
+        throw new TypeError(`[urlToParams] 不支持的协议: ${baseUrl}`);
+    }
+
+
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
     options.path = options.query // 如果传递空对象也是 `true`
diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index be51558..282e03b 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -211,11 +211,26 @@ export default async function request(
                 // 销毁当前请求
                 req.destroy();
 
+                const { hostname, port, path } = config;
+                const base = `${req.protocol}//${hostname}${port ? `:${port}` : ''}${path}`;
+                let redirectUrl: URL;
+
+                // 重定向的地址有可能是相对地址，也有可能不是一个合法的地址
+                try {
+                    redirectUrl = new URL(locationUrl, base);
+                } catch (error) {
+                    return reject(
+                        new Error('[request] 重定向的地址不合法', {
+                            cause: { request: req, config, error }
+                        })
+                    );
+                }
+
                 // 消耗一次重定向请求
                 options.maxRedirects = maxRedirects - 1;
 
                 // 对请求头的处理
-                const redirectHost = new URL(locationUrl).hostname;
+                const redirectHost = redirectUrl.hostname;
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
                 deleteOptionsAttr(options, [
@@ -255,7 +270,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(request(redirectUrl.href, options));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From cb0b38c46f61b0a5f223a7e68f0232620553d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:09 +0000
Subject: [PATCH 30/89] fix: a request whose connection is closed without a
 response rejects

---
 packages/request/src/request/request.ts | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 282e03b..3d8c334 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -191,8 +191,12 @@ export default async function request(
     let req: ClientRequest;
 
     const getF = (resolve: any, reject: any) => {
+        let hasResponse = false;
+
         /** 发起网络请求 */
         req = requestFn(config, (res: IncomingMessage) => {
+            hasResponse = true;
+
             if (req.destroyed) {
                 return;
             }
@@ -344,6 +348,17 @@ export default async function request(
             );
         });
 
+        // 没有收到响应，连接就已经关闭了，比如：服务器切换了协议 (`101`)
+        req.on('close', () => {
+            if (!hasResponse) {
+                reject(
+                    new Error('[request] 连接已关闭', {
+                        cause: { request: req, config }
+                    })
+                );
+            }
+        });
+
         // 结束请求
         //
         // @note 这里不要用 `req.write()` 来发送请求体
-- 
2.43.0


From 4e6cf8c01225a50bf47e33ba7c324c1a4734d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 31/89] fix: following a redirect does not modify the options
 of the caller

---
 packages/request/src/request/request.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 3d8c334..57236be 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -182,6 +182,8 @@ export default async function request(
         url = undefined;
     }
 
+    // 重定向时也不能修改调用者传递的参数，它有可能正在被其他请求使用
+    options = copy(options);
     const config = copy(options);
 
     const requestFn = optionsHandler(url, config);
-- 
2.43.0


From e4d10f71ffba0641b61ba7e0396b90fb5557a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:54 +0000
Subject: [PATCH 32/89] fix: a request redirected to GET is sent without the
 body

---
 packages/request/src/request/request.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 57236be..9d98dfe 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -263,13 +263,18 @@ export default async function request(
                     ]);
                 }
 
-                // 浏览器会将 POST 请求的 301 和 301 重定向重写为 GET
+                // 浏览器会将 POST 请求的 301 和 302 重定向重写为 GET
                 // https://tools.ietf.org/html/rfc7231%5C#section-6.4.2
+                // 303 重定向总是使用 GET 来获取结果
+                // https://tools.ietf.org/html/rfc7231%5C#section-6.4.4
                 if (
-                    config.method === 'POST' &&
-                    /^30[12]$/.test(`${res.statusCode}`)
+                    (config.method === 'POST' &&
+                        /^30[12]$/.test(`${res.statusCode}`)) ||
+                    (res.statusCode === 303 &&
+                        !/^(GET|HEAD)$/.test(`${config.method}`))
                 ) {
                     options.method = 'GET';
+                    deleteOptionsAttr(options, ['body']);
                     deleteOptionsAttr(options.headers, [
                         'content-length',
                         'content-type'
-- 
2.43.0


From ecd2381125a9b1f3726919d686ffff52db7246b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 33/89] fix: the caller's Host header is not sent to another
 host

---
 packages/request/src/request/request.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 9d98dfe..f904346 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -254,12 +254,13 @@ export default async function request(
                     options.headers = toLowerCaseKey(options.headers);
                 }
 
-                // 如果当前请求的主机名与要重定向的主机名不同，则删除隐私数据
+                // 如果当前请求的主机名与要重定向的主机名不同，则删除隐私数据以及原来的主机名
                 if (!isNull(redirectHost) && redirectHost !== config.hostname) {
                     deleteOptionsAttr(options, ['auth']);
                     deleteOptionsAttr(options.headers, [
                         'cookie',
-                        'authorization'
+                        'authorization',
+                        'host'
                     ]);
                 }
 
-- 
2.43.0


From 16f679989a541e12de79fe2726d76a49da6ff857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:09 +0000
Subject: [PATCH 34/89] fix: credentials given in the address survive a
 redirect within the host

---
 packages/request/src/request/request.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index f904346..03e6373 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -255,13 +255,19 @@ export default async function request(
                 }
 
                 // 如果当前请求的主机名与要重定向的主机名不同，则删除隐私数据以及原来的主机名
-                if (!isNull(redirectHost) && redirectHost !== config.hostname) {
+                if (
+                    !isNull(redirectHost) &&
+                    redirectHost !== new URL(base).hostname
+                ) {
                     deleteOptionsAttr(options, ['auth']);
                     deleteOptionsAttr(options.headers, [
                         'cookie',
                         'authorization',
                         'host'
                     ]);
+                } else if (!isNullOrUndefined(config.auth)) {
+                    // 身份验证信息有可能来自于 `URL`
+                    options.auth = config.auth;
                 }
 
                 // 浏览器会将 POST 请求的 301 和 302 重定向重写为 GET
-- 
2.43.0


From 2d8f1ee7e279d0cae97fcc449e317581b03f1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 35/89] fix: the address of a request may be a URL object

---
 packages/request/src/request/options.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index cd71291..984b434 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -13,7 +13,8 @@ import {
     isObjectFilled,
     isStringFilled,
     isTrue,
-    isTypeofObject
+    isTypeofObject,
+    isURL
 } from '@curong/types';
 
 import type { Methods, RequestOptions } from '../types';
@@ -144,7 +145,7 @@ export const deleteOptionsAttr = <T extends Record<PropertyKey, any>>(
  * @param baseUrl 基本的 URL
  * @param options 请求选项
  */
-const urlToParams = (baseUrl: string, options: RequestOptions) => {
+const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     let urlParams;
 
     try {
@@ -198,7 +199,7 @@ export const optionsHandler = (
     // 添加通用请求头
     options.headers = toLowerCaseKey({ ...commonHeaders, ...options.headers });
 
-    if (isStringFilled(baseUrl)) {
+    if (isStringFilled(baseUrl) || isURL(baseUrl)) {
         urlToParams(baseUrl, options);
     }
 
-- 
2.43.0


From a7c40b7591715c6ef9433ffb149729d032ac34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:48 +0000
Subject: [PATCH 36/89] fix: agents, signals and functions of the request
 options are used as given

---
 packages/request/src/request/request.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 03e6373..6c44bcb 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -16,6 +16,23 @@ import { handleBody } from './body';
 import { pipeDecompressStream } from './content';
 import { deleteOptionsAttr, optionsHandler } from './options';
 
+/**
+ * 拷贝参数
+ *
+ * @note `agent`、`signal`、`lookup` 等类的实例和函数不能被拷贝，它们必须原样传递给 `http.request`
+ */
+const copyOptions = (options: any): any => {
+    const result: any = { ...options };
+
+    ['headers', 'query', 'body'].forEach(key => {
+        if (key in result) {
+            result[key] = copy(result[key]);
+        }
+    });
+
+    return result;
+};
+
 /**
  * 从远程连接获取响应的内容并返回 `Buffer`
  *
@@ -183,8 +200,8 @@ export default async function request(
     }
 
     // 重定向时也不能修改调用者传递的参数，它有可能正在被其他请求使用
-    options = copy(options);
-    const config = copy(options);
+    options = copyOptions(options);
+    const config = copyOptions(options);
 
     const requestFn = optionsHandler(url, config);
     const { body, delay, maxRedirects } = config;
-- 
2.43.0


From 23537495f056dadce22b1b0b389211bb684b7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 37/89] fix: query parameters are added to those of the address

---
 packages/request/src/request/options.ts | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 984b434..2798099 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -117,11 +117,7 @@ const joinUrlQuery = (url: string, params: Record<string | number, any>) => {
 };
 
 const getPath = (path?: string, query?: ParsedUrlQueryInput) => {
-    if (!isStringFilled(path)) {
-        return '/';
-    }
-
-    path = path.trim();
+    path = isStringFilled(path) ? path.trim() : '/';
 
     if (isObjectFilled(query)) {
         path = joinUrlQuery(path, query);
@@ -173,9 +169,8 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
 
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
-    options.path = options.query // 如果传递空对象也是 `true`
-        ? getPath(options.path ?? path, options.query)
-        : getPath((options.path ?? path) + search);
+    // `query` 会拼接到 `URL` 的末尾，不能丢弃 `URL` 中原有的查询字符串
+    options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-- 
2.43.0


From 04a0ee10e407702fee3c17b39b29904a5cdee721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:10 +0000
Subject: [PATCH 38/89] fix: the Host header names the port, IPv6 addresses can
 be requested

---
 packages/request/src/request/options.ts | 22 ++++++++++++++++++++--
 packages/request/src/request/request.ts |  4 ++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 2798099..4c2d58b 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -135,6 +135,23 @@ export const deleteOptionsAttr = <T extends Record<PropertyKey, any>>(
     }
 };
 
+/**
+ * 获取 `URL` 中的主机部分，不是默认的端口号时会包含端口号
+ *
+ * @param hostname 主机名
+ * @param port 端口号
+ * @param defaultPort 默认的端口号
+ */
+export const getHost = (
+    hostname: string | null | undefined,
+    port?: number | string | null,
+    defaultPort?: number
+) => {
+    const host = `${hostname}`.includes(':') ? `[${hostname}]` : hostname;
+
+    return port && +port !== defaultPort ? `${host}:${port}` : `${host}`;
+};
+
 /**
  * 进行数据整合，根据选项替换 URL 中的内容
  *
@@ -199,14 +216,15 @@ export const optionsHandler = (
     }
 
     const { hostname, path = '/', https = true, query } = options;
+    const host = getHost(hostname, options.port, https ? 443 : 80);
     // `hostname` 有可能是 IP 地址，这时候就要看看 `options.headers.host` 有没有值了
-    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? hostname}`;
+    const origin = `${https ? 'https' : 'http'}://${options.headers.host ?? host}`;
 
     deleteOptionsAttr(options, ['https', 'query']);
     validationParameters({ hostname, path });
 
     options.path = getPath(path, query);
-    options.headers.host ??= hostname;
+    options.headers.host ??= host;
     options.headers.origin ??= origin;
     // 可包含完整的 URL 路径（包括协议、主机名、端口、路径等），后面不要加 `/` 了
     options.headers.referer ??= origin;
diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 6c44bcb..da8505f 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -14,7 +14,7 @@ import type { RequestHandler, RequestOptions, RequestResult } from '../types';
 
 import { handleBody } from './body';
 import { pipeDecompressStream } from './content';
-import { deleteOptionsAttr, optionsHandler } from './options';
+import { deleteOptionsAttr, getHost, optionsHandler } from './options';
 
 /**
  * 拷贝参数
@@ -235,7 +235,7 @@ export default async function request(
                 req.destroy();
 
                 const { hostname, port, path } = config;
-                const base = `${req.protocol}//${hostname}${port ? `:${port}` : ''}${path}`;
+                const base = `${req.protocol}//${getHost(hostname, port)}${path}`;
                 let redirectUrl: URL;
 
                 // 重定向的地址有可能是相对地址，也有可能不是一个合法的地址
-- 
2.43.0


From de55aff5fe14bb5a69f2bb2e952e2561715332ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 39/89] fix: credentials of the address are decoded, an empty
 user or password is allowed

---
 packages/request/src/request/options.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 4c2d58b..83b9ffb 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -190,8 +190,11 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
     options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
+    // `URL` 中的用户名和密码是经过百分号编码的，并且它们都可以为空
     options.auth ??=
-        username && password ? `${username}:${password}` : undefined;
+        username || password
+            ? `${decodeURIComponent(username)}:${decodeURIComponent(password)}`
+            : undefined;
 };
 
 export const optionsHandler = (
-- 
2.43.0


From 7fa0a22f932aad6b09195157cfcf38d8886b8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 40/89] fix: copies of typed arrays keep their elements

---
 packages/util/src/copy.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 297b447..809e784 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -107,6 +107,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return reg;
         }
 
+        case 'Int8Array':
+        case 'Uint8Array':
+        case 'Uint8ClampedArray':
+        case 'Int16Array':
+        case 'Uint16Array':
+        case 'Int32Array':
+        case 'Uint32Array':
+        case 'Float32Array':
+        case 'Float64Array':
         case 'BigInt64Array':
         case 'BigUint64Array':
             return new value.constructor(value);
@@ -147,15 +156,6 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'ArrayBuffer':
         case 'SharedArrayBuffer':
-        case 'Int8Array':
-        case 'Uint8Array':
-        case 'Uint8ClampedArray':
-        case 'Int16Array':
-        case 'Uint16Array':
-        case 'Int32Array':
-        case 'Uint32Array':
-        case 'Float32Array':
-        case 'Float64Array':
             return copyArrayBuffer(value);
 
         case 'Arguments':
-- 
2.43.0


From e3f24a25e5ed08b4483326a3c838f1336d7691ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:11 +0000
Subject: [PATCH 41/89] fix: URLs with an IPv6 host can be requested

---
 packages/request/src/request/options.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 83b9ffb..0cbaabd 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -185,7 +185,8 @@ const urlToParams = (baseUrl: string | URL, options: RequestOptions) => {
 
 
     options.https ??= protocol === 'https:';
-    options.hostname ??= hostname;
+    // `IPv6` 地址在 `URL` 中是包含方括号的，但是在连接时不能包含
+    options.hostname ??= hostname.replace(/^\[(.+)\]$/, '$1');
     // `query` 会拼接到 `URL` 的末尾，不能丢弃 `URL` 中原有的查询字符串
     options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
-- 
2.43.0


From c580e505ab4af3e833588dbb8865c9492b6cf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 42/89] fix: objects and files in arrays are sent in multipart
 bodies

---
 packages/request/src/request/formData.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/request/src/request/formData.ts b/packages/request/src/request/formData.ts
index 3e3f252..c60632e 100644
--- a/packages/request/src/request/formData.ts
+++ b/packages/request/src/request/formData.ts
@@ -128,8 +128,8 @@ export function objectToFormData(
                 ? `${arrayKeyPrefix}[${index}]`
                 : `${parentKey}[${index}]`;
 
-            if (isPlainObject(value)) {
-                objectToFormData(value, {
+            if (isPlainObject(value) || isArray(value)) {
+                objectToFormData(value as NestedObject, {
                     arrayKeyPrefix,
                     parentKey: key,
                     formData
@@ -145,7 +145,7 @@ export function objectToFormData(
     for (const [key, value] of Object.entries(object)) {
         const nestedKey = parentKey ? `${parentKey}.${key}` : key;
 
-        if (isPlainObject(value)) {
+        if (isPlainObject(value) || isArray(value)) {
             objectToFormData(value as NestedObject, {
                 arrayKeyPrefix,
                 parentKey: nestedKey,
-- 
2.43.0


From c79330927b8d4ae810c2f01b1e0c3deebfcd23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 43/89] fix: a FormData body is sent as multipart whatever the
 content type

---
 packages/request/src/request/body.ts    |  2 +-
 packages/request/src/request/content.ts | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/packages/request/src/request/body.ts b/packages/request/src/request/body.ts
index ff85bf9..d78c401 100644
--- a/packages/request/src/request/body.ts
+++ b/packages/request/src/request/body.ts
@@ -21,7 +21,7 @@ export async function handleBody(
         } else if (isBuffer(body) || isUint8Array(body)) {
             bodyBuffer = body;
         } else if (isTypeofObject(body)) {
-            bodyBuffer = await contentTypeCallback(options)(body);
+            bodyBuffer = await contentTypeCallback(options, body)(body as any);
         } else {
             bodyBuffer = String(body);
         }
diff --git a/packages/request/src/request/content.ts b/packages/request/src/request/content.ts
index 25953bb..bd7bcb0 100644
--- a/packages/request/src/request/content.ts
+++ b/packages/request/src/request/content.ts
@@ -114,7 +114,10 @@ const isFormDataType = (type: string) => {
  * @param options 请求配置选项
  * @returns 返回处理 `content-type` 的函数
  */
-export function contentTypeCallback(options: RequestOptions) {
+export function contentTypeCallback(
+    options: RequestOptions,
+    body?: RequestOptions['body']
+) {
     const headers = options.headers;
 
     if (headers) {
@@ -122,15 +125,8 @@ export function contentTypeCallback(options: RequestOptions) {
             headers['Content-Type'] ??
             '') as string;
 
-        if (isFormUrlencodedType(contentType)) {
-            return stringify;
-        }
-
-        if (isJsonType(contentType)) {
-            return JSON.stringify;
-        }
-
-        if (isFormDataType(contentType)) {
+        // `FormData` 只能使用 `multipart/form-data` 的格式发送
+        if (isFormDataType(contentType) || isFormData(body)) {
             return async (body: Record<PropertyKey, any> | FormData) => {
                 if (!isFormData(body)) {
                     body = objectToFormData(body);
@@ -141,6 +137,14 @@ export function contentTypeCallback(options: RequestOptions) {
                 });
             };
         }
+
+        if (isFormUrlencodedType(contentType)) {
+            return stringify;
+        }
+
+        if (isJsonType(contentType)) {
+            return JSON.stringify;
+        }
     }
 
     return (v: any) => v;
-- 
2.43.0


From 6bdfc7881c93966a55b7f95a0fb4915b55c02ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 44/89] fix: the handlers are used for the response after a
 redirect

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index da8505f..611e2c8 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -305,7 +305,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(redirectUrl.href, options));
+                return resolve(request(redirectUrl.href, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From 48e263471fe4d0ba891dd9ce05a99b77c8fdba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 45/89] fix: a handler that asks to stop is not called again

---
 packages/request/src/request/request.ts | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 611e2c8..c89b86f 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -332,15 +332,29 @@ export default async function request(
                 return responseData;
             };
 
+            let isStopped = false;
+
+            /** 提前结束，不会再接收剩余的响应体 */
+            const stop = () => {
+                isStopped = true;
+                serialStream.destroy();
+
+                return returns();
+            };
+
             /** 处理响应头 */
             if (handlers.header && handlers.header(res, config)) {
-                return resolve(returns());
+                return resolve(stop());
             }
 
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
+                if (isStopped) {
+                    return;
+                }
+
                 if (handlers.data && handlers.data(chunk, res, config)) {
-                    return resolve(returns());
+                    return resolve(stop());
                 }
 
                 buffers.push(chunk);
-- 
2.43.0


From cab547583988c78b66bce9c00b9a64a72e8a677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:26 +0000
Subject: [PATCH 46/89] fix: handlers are not called after the request has
 failed

---
 packages/request/src/request/request.ts | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index c89b86f..b23c295 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -209,8 +209,19 @@ export default async function request(
     deleteOptionsAttr(config, ['body', 'delay', 'maxRedirects']);
     let req: ClientRequest;
 
-    const getF = (resolve: any, reject: any) => {
+    const getF = (onResolve: any, onReject: any) => {
         let hasResponse = false;
+        let isSettled = false;
+
+        const resolve = (value: any) => {
+            isSettled = true;
+            onResolve(value);
+        };
+
+        const reject = (error: Error) => {
+            isSettled = true;
+            onReject(error);
+        };
 
         /** 发起网络请求 */
         req = requestFn(config, (res: IncomingMessage) => {
@@ -332,11 +343,8 @@ export default async function request(
                 return responseData;
             };
 
-            let isStopped = false;
-
             /** 提前结束，不会再接收剩余的响应体 */
             const stop = () => {
-                isStopped = true;
                 serialStream.destroy();
 
                 return returns();
@@ -349,7 +357,8 @@ export default async function request(
 
             /** 接收响应体 */
             serialStream.on('data', (chunk: Buffer) => {
-                if (isStopped) {
+                // 已经有结果了，但是还有没处理完的数据
+                if (isSettled) {
                     return;
                 }
 
-- 
2.43.0


From 50fb05393e6a5cd7d54fe91712b81be671a74bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 47/89] fix: a handler that throws rejects the request

---
 packages/request/src/request/request.ts | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index b23c295..d184424 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -350,8 +350,26 @@ export default async function request(
                 return returns();
             };
 
+            /** 调用回调函数，如果回调函数抛出了异常，则当前请求失败 */
+            const callHandler = (callback: () => true | void) => {
+                try {
+                    return callback();
+                } catch (error) {
+                    reject(
+                        new Error('[request] 回调函数出错', {
+                            cause: { ...stop(), error }
+                        })
+                    );
+
+                    return;
+                }
+            };
+
             /** 处理响应头 */
-            if (handlers.header && handlers.header(res, config)) {
+            if (
+                handlers.header &&
+                callHandler(() => handlers.header(res, config))
+            ) {
                 return resolve(stop());
             }
 
@@ -362,7 +380,10 @@ export default async function request(
                     return;
                 }
 
-                if (handlers.data && handlers.data(chunk, res, config)) {
+                if (
+                    handlers.data &&
+                    callHandler(() => handlers.data(chunk, res, config))
+                ) {
                     return resolve(stop());
                 }
 
-- 
2.43.0


From 84967c6ecdd36316f2223db55151fbe9507a52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 48/89] fix: an empty or malformed answer holds no addresses

---
 packages/request/src/dns/queryDNS.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/request/src/dns/queryDNS.ts b/packages/request/src/dns/queryDNS.ts
index 9ea08fe..8192ef0 100644
--- a/packages/request/src/dns/queryDNS.ts
+++ b/packages/request/src/dns/queryDNS.ts
@@ -1,3 +1,5 @@
+import { isIP } from 'net';
+
 import { isEqual, isNull, isString, isZero } from '@curong/types';
 
 import { request } from '../request';
@@ -48,7 +50,7 @@ export default async function queryDNS(
         const ret = await request(requestOptions);
 
         if (isNull(ret.error) && isEqual(ret.response.statusCode, 200)) {
-            address[host].push(...ret.data.toString().split(/;/));
+            address[host].push(...ret.data.toString().split(/;/).filter(ip => isIP(ip)));
         }
     }
 
-- 
2.43.0


From 684f1d923ee0e84e975374d962187a572b694208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 49/89] fix: a malformed reply of the address service is
 rejected and never executed

---
 packages/request/src/ip/publicIP.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/request/src/ip/publicIP.ts b/packages/request/src/ip/publicIP.ts
index caa2944..7d96c1b 100644
--- a/packages/request/src/ip/publicIP.ts
+++ b/packages/request/src/ip/publicIP.ts
@@ -1,7 +1,8 @@
+import { isIP } from 'net';
 import { TextDecoder } from 'util';
 
 import { format } from '@curong/term';
-import { isNotEqual, isNull } from '@curong/types';
+import { isNotEqual, isNull, isString } from '@curong/types';
 
 import { request } from '../request';
 import type { publicIpResult } from './types';
@@ -10,7 +11,6 @@ import type { publicIpResult } from './types';
  * 获取本地公共的 `IP` 地址和城市信息
  *
  * @returns 返回获取到的公共 `IP` 地址和城市信息对象
- * @note 该方法使用了 `new Function`，如果用户禁用了 [eval](https://developer.mozilla.org/en-US/docs/Web/JavaScript/Reference/Global_Objects/eval)，则导致代码异常
  * @throws
  * - 如果请求失败，则会抛出异常
  * - 如果响应的数据格式不正确，则会抛出异常
@@ -39,7 +39,17 @@ export default async function publicIP(): Promise<publicIpResult> {
 
     const data = new TextDecoder('gbk').decode(ret.data);
 
-    if (!data.startsWith('var returnCitySN = {')) {
+    const [, source] = /^var returnCitySN = (\{.*\});?\s*$/s.exec(data) ?? [];
+    let citySN: any = {};
+
+    // 不能直接运行从远程获取到的代码
+    try {
+        citySN = JSON.parse(source);
+    } catch {}
+
+    const { cip: ip, cid: id, cname: name } = citySN;
+
+    if (!isIP(`${ip}`) || ![id, name].every(v => isString(v))) {
         throw format({
             name: 'publicIP',
             message: '从远程获取到的数据的格式不正确',
@@ -47,8 +57,5 @@ export default async function publicIP(): Promise<publicIpResult> {
         });
     }
 
-    const citySN = new Function(`${data}; return returnCitySN ?? {};`);
-    const { cip: ip, cid: id, cname: name } = citySN();
-
     return { ip, city: { id, name } };
 }
-- 
2.43.0


From a723f8cdf91d8cfb16f70ca227dc57e836651ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 50/89] fix: output of overlapped pipes is returned

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index cd9b070..ebaf299 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -79,7 +79,7 @@ const getStdio = (
     const { stdio, isToString = true } = opts;
 
     const isPipe = (stdio: StdioOptions = 'pipe', fd: number): boolean => {
-        if (stdio === 'pipe' || stdio === null) {
+        if (stdio === 'pipe' || stdio === 'overlapped' || stdio === null) {
             return true;
         }
 
-- 
2.43.0


From fa7a1020865e04b967b012893557f34b9beb4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:38 +0000
Subject: [PATCH 51/89] fix: a quoted program path survives cmd /s

---
 packages/process/src/spawn.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index ebaf299..e5c8b10 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -200,7 +200,8 @@ export default function spawn(
                 (m, v) => m + ' ' + escapeCmd(v, isDouble),
                 ''
             );
-            shellArgs.push('/d', '/s', '/c', script);
+            // `/s` 会去掉首尾的引号，因此需要再包裹一层引号
+            shellArgs.push('/d', '/s', '/c', `"${script}"`);
             opts.windowsVerbatimArguments = true;
         } else {
             script += args.reduce((m, v) => m + ' ' + escapeSh(v), '');
-- 
2.43.0


From 519e78a1e07ab461ab2e9917afba70bceba0c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:01 +0000
Subject: [PATCH 52/89] fix: a spawn that throws rejects with the command and
 does not crash

---
 packages/process/src/spawn.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index e5c8b10..f9fe9db 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -211,14 +211,11 @@ export default function spawn(
         args = shellArgs;
     }
 
-    let handler: ChildProcess;
+    let handler: ChildProcess | undefined;
 
     const child = new Promise((res, rej) => {
-        handler = _spawn(cmd, args, opts);
-
         const stdout: Buffer[] = [];
         const stderr: Buffer[] = [];
-        const { stdout: so, stderr: se } = handler;
         const reject = (error: Error) =>
             rej({
                 cmd,
@@ -227,6 +224,14 @@ export default function spawn(
                 error
             });
 
+        try {
+            handler = _spawn(cmd, args, opts);
+        } catch (error: any) {
+            return reject(error);
+        }
+
+        const { stdout: so, stderr: se } = handler;
+
         if (so) {
             so.on('data', data => stdout.push(data)).on('error', reject);
             so.on('error', error => reject(error));
@@ -257,8 +262,8 @@ export default function spawn(
     }) as SpawnResult;
 
     setTimeout(() => {
-        child.stdin = handler!.stdin;
-        child.process = handler!;
+        child.stdin = handler?.stdin ?? null;
+        child.process = handler ?? null;
     });
 
     return child;
-- 
2.43.0


From 215ef4c17783a0e15c717b17695043fb18a881a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 53/89] fix: arguments with brackets and braces are quoted for
 the shell

---
 packages/process/src/spawn.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/process/src/spawn.ts b/packages/process/src/spawn.ts
index f9fe9db..04d4d73 100644
--- a/packages/process/src/spawn.ts
+++ b/packages/process/src/spawn.ts
@@ -58,7 +58,7 @@ const escapeSh = (input: string): string => {
         return `''`;
     }
 
-    if (!/[\r\n\t '"`#$&~*;?|()<>\\]/.test(input)) {
+    if (!/[\r\n\t '"`#$&~*;?|()<>[\]{}\\]/.test(input)) {
         return input;
     }
 
-- 
2.43.0


From d3bb3afe5378270f5c5afadb01930f98cb177050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 54/89] fix: each process of the tree is signalled once

---
 packages/os/src/kill.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1a10c16..540988f 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -23,11 +23,13 @@ const killAll = (
     signal?: string | number,
     callback?: (error?: any) => void
 ) => {
-    const killed = new Set();
+    const killed = new Set<number>();
 
     try {
-        Object.keys(tree).forEach(pid => {
-            tree[+pid].forEach(p => {
+        Object.keys(tree).forEach(key => {
+            const pid = +key;
+
+            tree[pid].forEach(p => {
                 if (!killed.has(p)) {
                     killPid(p, signal);
                     killed.add(p);
@@ -35,7 +37,7 @@ const killAll = (
             });
 
             if (!killed.has(pid)) {
-                killPid(+pid, signal);
+                killPid(pid, signal);
                 killed.add(pid);
             }
         });
-- 
2.43.0


From 6245ddc5c80466b233013b9bde2c1cdffb9f25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:43 +0000
Subject: [PATCH 55/89] fix: a process lister that reports nothing means no
 children

---
 packages/os/src/kill.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 540988f..f8c8e73 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -62,7 +62,7 @@ const buildProcessTree = (
     cb: (error?: any) => void
 ) => {
     const ps = spawnChildProcessesList(`${parentPid}`);
-    let allData: string;
+    let allData = '';
 
     ps.stdout.on('data', data => {
         allData += data.toString('ascii');
@@ -79,7 +79,17 @@ const buildProcessTree = (
             return;
         }
 
-        (allData.match(/\d+/g) ?? []).forEach(pid => {
+        const pids = allData.match(/\d+/g);
+
+        if (!pids) {
+            if (pidsToProcess.size < 1) {
+                cb();
+            }
+
+            return;
+        }
+
+        pids.forEach(pid => {
             const p = +pid;
             tree[parentPid].push(p);
             tree[p] = [];
-- 
2.43.0


From 8e963e34b189d6b2a2ba06372e921e62362021b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 56/89] fix: a process listed twice is walked once

---
 packages/os/src/kill.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index f8c8e73..7a80de0 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -79,9 +79,11 @@ const buildProcessTree = (
             return;
         }
 
-        const pids = allData.match(/\d+/g);
+        const pids = (allData.match(/\d+/g) ?? [])
+            .map(Number)
+            .filter((p, i, all) => !tree[p] && all.indexOf(p) === i);
 
-        if (!pids) {
+        if (!pids.length) {
             if (pidsToProcess.size < 1) {
                 cb();
             }
@@ -89,8 +91,7 @@ const buildProcessTree = (
             return;
         }
 
-        pids.forEach(pid => {
-            const p = +pid;
+        pids.forEach(p => {
             tree[parentPid].push(p);
             tree[p] = [];
             pidsToProcess.add(p);
-- 
2.43.0


From 3e108ef780221e99ba017636bd5da0c104b6fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:13 +0000
Subject: [PATCH 57/89] fix: an unavailable process lister does not crash or
 block kill

---
 packages/os/src/kill.ts | 63 ++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 7a80de0..b5d148b 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -61,40 +61,22 @@ const buildProcessTree = (
     spawnChildProcessesList: (pid: string) => ChildProcessWithoutNullStreams,
     cb: (error?: any) => void
 ) => {
-    const ps = spawnChildProcessesList(`${parentPid}`);
     let allData = '';
 
-    ps.stdout.on('data', data => {
-        allData += data.toString('ascii');
-    });
-
-    ps.on('close', code => {
+    const done = (pids: number[]) => {
         pidsToProcess.delete(parentPid);
 
-        if (code != 0) {
-            if (pidsToProcess.size < 1) {
-                cb();
-            }
-
-            return;
-        }
-
-        const pids = (allData.match(/\d+/g) ?? [])
-            .map(Number)
-            .filter((p, i, all) => !tree[p] && all.indexOf(p) === i);
-
-        if (!pids.length) {
-            if (pidsToProcess.size < 1) {
-                cb();
-            }
-
-            return;
-        }
-
         pids.forEach(p => {
             tree[parentPid].push(p);
             tree[p] = [];
             pidsToProcess.add(p);
+        });
+
+        if (pidsToProcess.size < 1) {
+            return cb();
+        }
+
+        pids.forEach(p => {
             buildProcessTree(
                 p,
                 tree,
@@ -103,6 +85,35 @@ const buildProcessTree = (
                 cb
             );
         });
+    };
+
+    let ps: ChildProcessWithoutNullStreams;
+
+    try {
+        ps = spawnChildProcessesList(`${parentPid}`);
+    } catch {
+        return done([]);
+    }
+
+    // 无法创建子进程时（如 `EMFILE`），没有 `stdout`
+    ps.stdout?.on('data', data => {
+        allData += data.toString('ascii');
+    });
+
+    // 出现错误之后依然会触发 `close` 事件
+    ps.stdout?.on('error', () => {});
+    ps.on('error', () => {});
+
+    ps.on('close', code => {
+        if (code != 0) {
+            return done([]);
+        }
+
+        const pids = (allData.match(/\d+/g) ?? [])
+            .map(Number)
+            .filter((p, i, all) => !tree[p] && all.indexOf(p) === i);
+
+        done(pids);
     });
 };
 
-- 
2.43.0


From 07d8ff6960789f9fd9b1057d494e9d9a5db051a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:25 +0000
Subject: [PATCH 58/89] fix: kill rejects pid 0 and empty pids

---
 packages/os/src/kill.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index b5d148b..1cfe8bf 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -141,7 +141,8 @@ function kill(
         signal = undefined;
     }
 
-    if (!isUintSafe((pid = +pid))) {
+    // `0` 表示当前进程组，它不是某个进程的 ID
+    if (!isUintSafe((pid = +pid)) || pid === 0) {
         const e = new Error(`[kill] pid 必须是一个数字: ${pid}`);
 
         if (callback) {
-- 
2.43.0


From 2b73612cd8186b1d0ca587f57c74e76fba6359ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 59/89] fix: a truncated process list is not used

---
 packages/os/src/kill.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/os/src/kill.ts b/packages/os/src/kill.ts
index 1cfe8bf..becd488 100644
--- a/packages/os/src/kill.ts
+++ b/packages/os/src/kill.ts
@@ -62,6 +62,7 @@ const buildProcessTree = (
     cb: (error?: any) => void
 ) => {
     let allData = '';
+    let failed = false;
 
     const done = (pids: number[]) => {
         pidsToProcess.delete(parentPid);
@@ -100,12 +101,13 @@ const buildProcessTree = (
         allData += data.toString('ascii');
     });
 
-    // 出现错误之后依然会触发 `close` 事件
-    ps.stdout?.on('error', () => {});
-    ps.on('error', () => {});
+    // 出现错误之后依然会触发 `close` 事件，此时的输出可能是不完整的
+    const fail = () => (failed = true);
+    ps.stdout?.on('error', fail);
+    ps.on('error', fail);
 
     ps.on('close', code => {
-        if (code != 0) {
+        if (code != 0 || failed) {
             return done([]);
         }
 
-- 
2.43.0


From 647d6dd20ed492de3f22ac5c0cfac51e72a90ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 60/89] fix: the Windows task list is read in CSV form

---
 packages/os/src/windows/taskList.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/packages/os/src/windows/taskList.ts b/packages/os/src/windows/taskList.ts
index dcfc2ac..2c349ce 100644
--- a/packages/os/src/windows/taskList.ts
+++ b/packages/os/src/windows/taskList.ts
@@ -34,16 +34,15 @@ import type { WindowsTaskListResult } from './types';
  * ```
  */
 export default async function windowsTaskList(): Promise<WindowsTaskListResult> {
-    const { stdout } = await exec('tasklist /NH');
+    // 以表格形式输出时，过长的映像名称会被截断，并且名称中的连续空格无法与列的间隔区分
+    const { stdout } = await exec('tasklist /NH /FO CSV');
     const taskSplit = stdout.toString().trim().split('\n');
 
     return taskSplit.map((task: string) => {
-        const splitChunk = task.trim().split(/\s{2,}/);
-        const [imageName, pidAndSession, sessionId, mem] = splitChunk;
-        const [pid, sessionName] = pidAndSession.split(/ /);
+        const columns = task.match(/"[^"]*"/g) ?? [];
+        const [imageName, pid, name, id, mem] = columns.map(v => v.slice(1, -1));
         const memusage = mem.split(' ')[0].replace(/,/g, '');
-        const session = { name: sessionName, id: sessionId };
 
-        return { imageName, pid, memusage, session };
+        return { imageName, pid, memusage, session: { name, id } };
     });
 }
-- 
2.43.0


From 54d58916147de0df59357807ee9eef0cd835757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 61/89] fix: windowsLocal is null when no language is reported

---
 packages/os/src/windows/local.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/local.ts b/packages/os/src/windows/local.ts
index 1138be8..3b22d1e 100644
--- a/packages/os/src/windows/local.ts
+++ b/packages/os/src/windows/local.ts
@@ -21,5 +21,5 @@ export default async function windowsLocal(): Promise<string | null> {
     const command = 'powershell.exe Get-UICulture';
     const { stdout } = await exec(command, { encoding: 'utf8' });
 
-    return (stdout as string).split('\n')[3].split(/ +/)[1];
+    return (stdout as string).split('\n')[3]?.split(/ +/)[1] ?? null;
 }
-- 
2.43.0


From 952580b5855625825896522c2a5fb50e3359eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:42 +0000
Subject: [PATCH 62/89] fix: killWindowsTask is true when the process was ended

---
 packages/os/src/windows/killTask.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/killTask.ts b/packages/os/src/windows/killTask.ts
index 668785b..291dd88 100644
--- a/packages/os/src/windows/killTask.ts
+++ b/packages/os/src/windows/killTask.ts
@@ -19,5 +19,5 @@ export default async function killWindowsTask(
     const command = ['taskkill', '/F', '/T', '/IM', `"${imageName}"`];
     const executed = await exec(command).catch(() => ({ stderr: 'error' }));
 
-    return executed.stderr.length > 0;
+    return executed.stderr.length === 0;
 }
-- 
2.43.0


From 68f5b7bf914472ec1aa40fecf3f6ccb3dc1ae1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:07 +0000
Subject: [PATCH 63/89] fix: a question whose input ends resolves with an empty
 answer

---
 packages/term/src/readByQuestion.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/term/src/readByQuestion.ts b/packages/term/src/readByQuestion.ts
index 356929a..d0d9be4 100644
--- a/packages/term/src/readByQuestion.ts
+++ b/packages/term/src/readByQuestion.ts
@@ -14,8 +14,11 @@ export default function readByQuestion(message: string): Promise<string> {
         });
 
         readable.question(message, answer => {
-            readable.close();
             resolve(answer.trim());
+            readable.close();
         });
+
+        // 输入已结束，不会再有回答
+        readable.on('close', () => resolve(''));
     });
 }
-- 
2.43.0


From 95df37bc1fbb63479de1fe0ecf5d3ca7d2a578c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 64/89] fix: an unfinished last line answers the question

---
 packages/term/src/readByQuestion.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/term/src/readByQuestion.ts b/packages/term/src/readByQuestion.ts
index d0d9be4..a21d126 100644
--- a/packages/term/src/readByQuestion.ts
+++ b/packages/term/src/readByQuestion.ts
@@ -18,6 +18,9 @@ export default function readByQuestion(message: string): Promise<string> {
             readable.close();
         });
 
+        // 输入结束时，最后一行内容可能没有换行符
+        readable.on('line', line => resolve(line.trim()));
+
         // 输入已结束，不会再有回答
         readable.on('close', () => resolve(''));
     });
-- 
2.43.0


From 90233944fb249bfd1136fd09c2c060c0140b10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:48 +0000
Subject: [PATCH 65/89] fix: a failing input rejects the question

---
 packages/term/src/readByQuestion.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/term/src/readByQuestion.ts b/packages/term/src/readByQuestion.ts
index a21d126..1f23654 100644
--- a/packages/term/src/readByQuestion.ts
+++ b/packages/term/src/readByQuestion.ts
@@ -7,7 +7,7 @@ import { createInterface } from 'readline';
  * @returns 返回用户输入的内容
  */
 export default function readByQuestion(message: string): Promise<string> {
-    return new Promise(resolve => {
+    return new Promise((resolve, reject) => {
         const readable = createInterface({
             input: process.stdin,
             output: process.stdout
@@ -21,6 +21,11 @@ export default function readByQuestion(message: string): Promise<string> {
         // 输入结束时，最后一行内容可能没有换行符
         readable.on('line', line => resolve(line.trim()));
 
+        readable.on('error', error => {
+            reject(error);
+            readable.close();
+        });
+
         // 输入已结束，不会再有回答
         readable.on('close', () => resolve(''));
     });
-- 
2.43.0


From 7107cafaedc5b7a00846ec0516d2560cebc0cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 66/89] fix: windowsMakeShortcut throws on other systems as
 documented

---
 packages/os/src/windows/makeShortcut.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/os/src/windows/makeShortcut.ts b/packages/os/src/windows/makeShortcut.ts
index 01492fc..f6d8a3e 100644
--- a/packages/os/src/windows/makeShortcut.ts
+++ b/packages/os/src/windows/makeShortcut.ts
@@ -85,7 +85,7 @@ export default async function windowsMakeShortcut(
     options?: ShortcutOptions
 ) {
     if (!isWindows) {
-        return new Error(
+        throw new Error(
             '[windowsMakeShortcut]: 当前不是 Windows 系统，无法执行操作'
         );
     }
-- 
2.43.0


From 90ebcd4e38dd379424ee88a4150765d965838470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:45 +0000
Subject: [PATCH 67/89] fix: restore the former drawing of durations, which an
 existing test relies on (reverts 1410e59)

---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index 0a49fff..fc7fc04 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(start, end)
-                          : range(end, start);
+                          ? range(end, start)
+                          : range(start, end);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From a30b46feed61ac14a8528f6d508c317fbfaee117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 68/89] fix: a memoised async computation that returned NaN
 synchronously is finished too

---
 packages/function/src/cache/memoizeWithAsync.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/cache/memoizeWithAsync.ts b/packages/function/src/cache/memoizeWithAsync.ts
index 00c9ef4..631902c 100644
--- a/packages/function/src/cache/memoizeWithAsync.ts
+++ b/packages/function/src/cache/memoizeWithAsync.ts
@@ -76,7 +76,7 @@ function memoizeWithAsync<F extends (...args: any[]) => any, K>(
         }
 
         // 如果没有记录过，就执行函数，并获取结果
-        const promise = func.apply(func, args);
+        const promise = Promise.resolve<ReturnType<F>>(func.apply(func, args));
         queues.set(key, promise);
 
         try {
-- 
2.43.0


From 2ab6acc7eca991ba945c52ca939e34fc27d7b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 69/89] fix: currying: keep every argument that is passed to a
 partial call

---
 packages/function/src/currying.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/currying.ts b/packages/function/src/currying.ts
index 0146f95..88c4155 100644
--- a/packages/function/src/currying.ts
+++ b/packages/function/src/currying.ts
@@ -93,7 +93,7 @@ function currying(fn: (...args: any[]) => any): (...args: any[]) => any {
     return function curried(...args: any[]) {
         return args.length >= depth
             ? fn.apply(fn, args)
-            : (arg: any) => curried(...args, arg);
+            : (...rest: any[]) => curried(...args, ...rest);
     };
 }
 
-- 
2.43.0


From 3091ae6cc3508e30d9946d4ee8e84ab99647b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 70/89] fix: toggle: switch away from a NaN default value

---
 packages/function/src/select/toggle.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/select/toggle.ts b/packages/function/src/select/toggle.ts
index 9f6327a..bfd8fb6 100644
--- a/packages/function/src/select/toggle.ts
+++ b/packages/function/src/select/toggle.ts
@@ -38,7 +38,9 @@ export default function toggle<L, R>(
 
         /** 切换当前值 */
         toggle() {
-            value = value === defaultValue ? reverseValue : defaultValue;
+            value = Object.is(value, defaultValue)
+                ? reverseValue
+                : defaultValue;
             return value;
         },
 
-- 
2.43.0


From 2aae9dead4c68b5203129ffee338bc5b9985544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 71/89] fix: singletonClass: keep one instance for each class

---
 packages/function/src/class/singletonClass.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/class/singletonClass.ts b/packages/function/src/class/singletonClass.ts
index a83fc6f..16048fc 100644
--- a/packages/function/src/class/singletonClass.ts
+++ b/packages/function/src/class/singletonClass.ts
@@ -36,7 +36,7 @@ export default function singletonClass<T extends Class>(classTarget: T) {
                 return Reflect.construct(target, argumentsList, newTarget);
             }
 
-            if (!target[CLASS_SINGLETON_KEY]) {
+            if (!Object.hasOwn(target, CLASS_SINGLETON_KEY)) {
                 target[CLASS_SINGLETON_KEY] = Reflect.construct(
                     target,
                     argumentsList,
-- 
2.43.0


From 226231a1992d33cadfe63736838d3a3a59dffba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 72/89] fix: readLnk: pass the path as text, not through cmd

---
 packages/fs/src/readLnk.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/fs/src/readLnk.ts b/packages/fs/src/readLnk.ts
index 1726ae5..787a70b 100644
--- a/packages/fs/src/readLnk.ts
+++ b/packages/fs/src/readLnk.ts
@@ -1,4 +1,4 @@
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { normalize } from 'path';
 import { platform } from 'process';
 import { promisify } from 'util';
@@ -12,7 +12,10 @@ import { format } from '@curong/term';
  * @returns 返回拼接好的命令字符串
  */
 function getCommand(pathString: string): string {
-    return `(New-Object -COM WScript.Shell).CreateShortcut('${pathString}').TargetPath;`;
+    // 在 PowerShell 的单引号字符串中，引号需要写两次，弯引号和直引号是等价的
+    const escaped = pathString.replace(/['\u2018-\u201b]/g, '$&$&');
+
+    return `(New-Object -COM WScript.Shell).CreateShortcut('${escaped}').TargetPath;`;
 }
 
 /**
@@ -35,10 +38,12 @@ export default async function readLnk(pathString: string): Promise<string> {
         });
     }
 
-    const command = `powershell.exe -command ${getCommand(pathString)}`;
-    const { stdout, stderr } = await promisify(exec)(command, {
-        encoding: 'utf8'
-    });
+    // 不经过 cmd，否则路径中的特殊字符会被解释
+    const { stdout, stderr } = await promisify(execFile)(
+        'powershell.exe',
+        ['-command', getCommand(pathString)],
+        { encoding: 'utf8' }
+    );
 
     if (stderr) {
         throw format({
-- 
2.43.0


From a1c365cb985648ca169e55377be0e9e73032546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 73/89] fix: ProgressBar: finish at the last item and round
 down exactly

---
 packages/term/src/progressBar.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index 41ac71d..b5170eb 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -85,13 +85,13 @@ export default class ProgressBar {
         if (isUintSafe(total)) {
             // 有限
             if (picture) {
-                const finish = Math.floor((lastIndex / total!) * 10);
+                const finish = Math.floor((lastIndex * 10) / total!);
                 const text = '#'.repeat(finish).padEnd(10, ' ');
                 bars.push(`[${text}]`);
             }
 
             if (percentage) {
-                const number = Math.floor((lastIndex / total!) * 100);
+                const number = Math.floor((lastIndex * 100) / total!);
                 bars.push(`${number}%`);
             }
 
@@ -159,7 +159,7 @@ export default class ProgressBar {
     write(value: string = ''): boolean {
         stdout.write(`${clearLine()}${this.record.join(' ')} ${value}`);
 
-        return isEqual(this.options.total, this.index) && this.end();
+        return isEqual(this.options.total, this.index + 1) && this.end();
     }
 
     /**
-- 
2.43.0


From c55dbc33e8713a01f4c07f1aff3c03fa9ac6dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 74/89] fix: readline: split the text of a Buffer into lines

---
 packages/fs/src/readline.ts         | 5 +++--
 packages/fs/src/readlineFromCode.ts | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/fs/src/readline.ts b/packages/fs/src/readline.ts
index b6bf366..039a77c 100644
--- a/packages/fs/src/readline.ts
+++ b/packages/fs/src/readline.ts
@@ -40,8 +40,9 @@ export default function readline(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            // 先解码再换行，否则换行符不会被识别
+            chunk = chunk.toString(encoding as BufferEncoding);
+            toString = data => data.join('');
             break;
         }
 
diff --git a/packages/fs/src/readlineFromCode.ts b/packages/fs/src/readlineFromCode.ts
index 684c10a..0171a51 100644
--- a/packages/fs/src/readlineFromCode.ts
+++ b/packages/fs/src/readlineFromCode.ts
@@ -98,8 +98,9 @@ export default function readlineFromCode(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            // 先解码再换行，否则换行符不会被识别
+            chunk = chunk.toString(encoding as BufferEncoding);
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From cbfcd34166e2dab82d900bbb6237722030c5ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 75/89] fix: ProgressBar: return to the start of the line
 without moving between lines

---
 packages/term/src/progressBar.ts     | 2 +-
 packages/term/src/sequence/cursor.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/term/src/progressBar.ts b/packages/term/src/progressBar.ts
index b5170eb..73493a9 100644
--- a/packages/term/src/progressBar.ts
+++ b/packages/term/src/progressBar.ts
@@ -10,7 +10,7 @@ import {
 } from './sequence';
 import type { ProgressBarOptions } from './types';
 
-/** 相当于: `\u001B[A\u001B[E\u001B[K` */
+/** 相当于: `\u001B[G\u001B[K` */
 const clearLine = () => cursorOnLineBegin + eraseLine();
 
 /**
diff --git a/packages/term/src/sequence/cursor.ts b/packages/term/src/sequence/cursor.ts
index 620887a..c3c29b2 100644
--- a/packages/term/src/sequence/cursor.ts
+++ b/packages/term/src/sequence/cursor.ts
@@ -66,4 +66,4 @@ export const cursorHidden = `${CSI}?25l`;
 export const cursorShow = `${CSI}?25h`;
 
 /** 跳转到当前行的开头 */
-export const cursorOnLineBegin = `${CSI}A${CSI}E`;
+export const cursorOnLineBegin = `${CSI}G`;
-- 
2.43.0


From 5539bd2a45f45286f87a3e68affb672961decdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 76/89] fix: copyFile: never delete the destination when it is
 the source

---
 packages/fs/src/copyFile.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 792850b..a72c0e2 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -48,8 +48,18 @@ export default async function copyFile(
             await promises.copyFile(filePath, destString);
         } catch (error) {
             if (isTrue(options!.forcibly)) {
-                // 只删除无法写入的目标文件，而不是源文件
-                await promises.unlink(destString).catch(() => null);
+                // 只删除无法写入的目标文件，而不是源文件 (它们有可能是同一个文件)
+                const isSelf = await Promise.all([
+                    promises.stat(filePath),
+                    promises.lstat(destString)
+                ]).then(
+                    ([from, to]) => from.dev === to.dev && from.ino === to.ino,
+                    () => true
+                );
+
+                if (!isSelf) {
+                    await promises.unlink(destString).catch(() => null);
+                }
 
 
                 return await copyFile(filePath, srcDir, desDir, {
-- 
2.43.0


From abedbc7725e59b89140f535fa8e5ba170a11d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 77/89] fix: destPath: place a file by the shortcut it was
 reached through

---
 packages/fs/src/destPath.ts | 39 ++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/packages/fs/src/destPath.ts b/packages/fs/src/destPath.ts
index 631905a..428e4fc 100644
--- a/packages/fs/src/destPath.ts
+++ b/packages/fs/src/destPath.ts
@@ -1,5 +1,5 @@
 import { promises } from 'fs';
-import { dirname, isAbsolute, join, normalize, relative } from 'path';
+import { dirname, isAbsolute, join, normalize, relative, sep } from 'path';
 
 import { format } from '@curong/term';
 import { isStringFilled } from '@curong/types';
@@ -9,6 +9,12 @@ import mkdir from './mkdir';
 import readLnk from './readLnk';
 import type { DestPathOptions } from './types';
 
+/** 相对路径是否没有离开它的文件夹 */
+const isInner = (resolvePath: string): boolean =>
+    resolvePath !== '..' &&
+    !resolvePath.startsWith('..' + sep) &&
+    !isAbsolute(resolvePath);
+
 /**
  * 获取目标路径和目标文件夹
  *
@@ -52,10 +58,11 @@ export default async function destPath(
     srcDir = normalize(srcDir);
     desDir = normalize(desDir);
 
-    let destPath = '';
+    // 相对于源文件夹的路径
+    let resolvePath = relative(srcDir, filePath);
 
     // 有可能是通过系统的快捷方式访问的软连接和或硬链接
-    if (!filePath.includes(srcDir)) {
+    if (!isInner(resolvePath)) {
         // 重新读取该文件夹下的文件或目录，并且遍历它
         const pathList: string[] = await promises.readdir(srcDir);
 
@@ -68,27 +75,23 @@ export default async function destPath(
             const targetPath = await readLnk(join(srcDir, p)).catch(() => null);
             if (!targetPath) continue;
 
-            // 目标文件夹 + 当前快捷方式的名字 + 相对路径 = 最终的路径(包含文件名和后缀)
-            return join(
-                desDir,
-                // 快捷方式的名字(已经删除了".lnk")
-                p.slice(0, p.lastIndexOf('.')),
-                // 获取相对路径
-                relative(targetPath, filePath)
-            );
+            // 如果当前文件不在当前快捷方式所指向的文件夹中
+            const innerPath = relative(targetPath, filePath);
+            if (!isInner(innerPath)) continue;
+
+            // 当前快捷方式的名字(已经删除了".lnk") + 相对路径
+            resolvePath = join(p.slice(0, p.lastIndexOf('.')), innerPath);
+            break;
         }
     }
 
     // 拼接相对路径，如果拼接失败则会返回绝对路径(filePath)
-    const resolvePath = relative(srcDir, filePath);
-
-    // 如果是绝对路径
-    if (isAbsolute(resolvePath)) {
-        return Promise.resolve(filePath);
+    if (!isInner(resolvePath)) {
+        return filePath;
     }
 
-    // 拿到相对路径然后做拼接
-    destPath = join(desDir, resolvePath);
+    // 目标文件夹 + 相对路径 = 最终的路径(包含文件名和后缀)
+    const destPath = join(desDir, resolvePath);
 
     if (isMakeDir) {
         const destDir = dirname(destPath);
-- 
2.43.0


From d3a7a137120c7784ddd9ac1462286be0e23dfbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 78/89] fix: copy: refuse to copy a directory into itself
 through a link

---
 packages/fs/src/copy.ts | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index bb16083..453da5b 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -1,6 +1,6 @@
 import { constants } from 'fs';
-import { copyFile, lstat, readdir } from 'fs/promises';
-import { dirname, isAbsolute, join, relative, sep } from 'path';
+import { copyFile, lstat, readdir, realpath } from 'fs/promises';
+import { dirname, isAbsolute, join, relative, resolve, sep } from 'path';
 
 import { format } from '@curong/term';
 
@@ -10,6 +10,26 @@ import isFile from './isFile';
 import mkdir from './mkdir';
 import type { CopyFileOptions } from './types';
 
+/**
+ * 获取路径的真实路径，还不存在的部分会原样保留
+ *
+ * @param path 路径
+ * @returns 返回真实路径
+ */
+const _realPath = async (path: string): Promise<string> => {
+    const full = resolve(path);
+
+    return await realpath(full).catch(async error => {
+        const parent = dirname(full);
+
+        if (error.code === 'ENOENT' && parent !== full) {
+            return join(await _realPath(parent), relative(parent, full));
+        }
+
+        throw error;
+    });
+};
+
 const _copyFile = async (from: string, to: string, forcibly = false) => {
     // 如果目标文件已经存在，并且我们不想强制写入
     if ((await isFile(to)) && !forcibly) {
@@ -93,7 +113,19 @@ export default async function copy(
         });
     }
 
-    const inner = relative(fromPath, toPath);
+    // 路径中可能有符号链接，所以需要使用真实路径来判断
+    const inner = await Promise.all([
+        _realPath(fromPath),
+        _realPath(toPath)
+    ])
+        .then(([from, to]) => relative(from, to))
+        .catch(error => {
+            throw format({
+                name,
+                message: '读取真实路径失败',
+                data: { fromPath, toPath, error }
+            });
+        });
 
     // 如果目标在源文件夹的内部，那么会无限地拷贝自己
     if (
-- 
2.43.0


From e78fef756056f12f488471d94c3a450d909aed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 79/89] fix: fileList, findDir: judge the target of a shortcut
 by what it is, and never follow one in circles

---
 packages/fs/src/fileList.ts | 67 ++++++++++++++++++++++++++++---------
 packages/fs/src/findDir.ts  | 21 +++++++++---
 2 files changed, 68 insertions(+), 20 deletions(-)

diff --git a/packages/fs/src/fileList.ts b/packages/fs/src/fileList.ts
index cfa0242..53d4ab9 100644
--- a/packages/fs/src/fileList.ts
+++ b/packages/fs/src/fileList.ts
@@ -1,5 +1,5 @@
 import { Dirent, promises } from 'fs';
-import { extname, join } from 'path';
+import { extname, join, relative, resolve } from 'path';
 
 import { format } from '@curong/term';
 
@@ -9,20 +9,18 @@ import type { FileListOptions } from './types';
 /**
  * 获取一个文件夹的所有文件列表
  *
- * 支持从 Windows 快捷方式(`lnk`) 中读取目录或文件
- *
- * @param {string} dirName 文件夹目录
+ * @param dirName 文件夹目录
  * @param options 配置选项
- *  - `depthOnce` 是否只获取一层深度的数据，默认为 `false`
- * @return 返回一个包含文件名的列表
- * @throws 如果读取文件夹失败，则会抛出异常
- * @todos 将参数变为一个 `options`： { ignored = '', depth = 0 }
+ * @param parents 正在读取的所有文件夹，快捷方式可能会指向它们
+ * @returns 返回一个包含文件名的列表
  */
-export default async function fileList(
+async function fileListCall(
     dirName: string,
-    options?: FileListOptions
+    options: FileListOptions | undefined,
+    parents: string[]
 ): Promise<Array<string>> {
     const { depthOnce = false } = options ?? {};
+    const current = [...parents, resolve(dirName)];
 
     const files: Array<string> = [];
     const dirents: Array<Dirent> | void = await promises
@@ -56,12 +54,30 @@ export default async function fileList(
             const targetPath = await readLnk(absolutePath).catch(() => null);
             // 无法解析的快捷方式只是一个普通的文件
             if (targetPath) {
-                if (extname(targetPath) === '') {
-                    // 如果是文件夹
-                    files.push(...(await fileList(targetPath)));
-                } else {
+                const isDirectory = await promises.stat(targetPath).then(
+                    stats => stats.isDirectory(),
+                    error => {
+                        // 目标已经不存在
+                        if (error.code === 'ENOENT') {
+                            return false;
+                        }
+
+                        throw format({
+                            name: 'fileList',
+                            message: '读取快捷方式的目标失败',
+                            data: { absolutePath, targetPath, error }
+                        });
+                    }
+                );
+
+                if (!isDirectory) {
                     // 不是文件夹，那么就是文件了
                     files.push(targetPath);
+                } else if (!current.some(p => relative(p, targetPath) === '')) {
+                    // 如果是文件夹，指向正在读取的文件夹的快捷方式不能再次读取，否则会无限循环
+                    files.push(
+                        ...(await fileListCall(targetPath, void 0, current))
+                    );
                 }
 
                 continue;
@@ -70,7 +86,9 @@ export default async function fileList(
 
         // 是文件夹
         if (dirent.isDirectory()) {
-            files.push(...(await fileList(absolutePath)));
+            files.push(
+                ...(await fileListCall(absolutePath, void 0, current))
+            );
         } else {
             files.push(absolutePath);
         }
@@ -78,3 +96,22 @@ export default async function fileList(
 
     return files;
 }
+
+/**
+ * 获取一个文件夹的所有文件列表
+ *
+ * 支持从 Windows 快捷方式(`lnk`) 中读取目录或文件
+ *
+ * @param {string} dirName 文件夹目录
+ * @param options 配置选项
+ *  - `depthOnce` 是否只获取一层深度的数据，默认为 `false`
+ * @return 返回一个包含文件名的列表
+ * @throws 如果读取文件夹失败，则会抛出异常
+ * @todos 将参数变为一个 `options`： { ignored = '', depth = 0 }
+ */
+export default async function fileList(
+    dirName: string,
+    options?: FileListOptions
+): Promise<Array<string>> {
+    return await fileListCall(dirName, options, []);
+}
diff --git a/packages/fs/src/findDir.ts b/packages/fs/src/findDir.ts
index 594c62d..8556eb8 100644
--- a/packages/fs/src/findDir.ts
+++ b/packages/fs/src/findDir.ts
@@ -1,9 +1,10 @@
 import { Dirent, promises } from 'fs';
-import { extname, join } from 'path';
+import { extname, join, relative, resolve } from 'path';
 
 import { format } from '@curong/term';
 import { isArrayFilled, isStringFilled } from '@curong/types';
 
+import isDir from './isDir';
 import readLnk from './readLnk';
 
 /**
@@ -12,13 +13,16 @@ import readLnk from './readLnk';
  * @param pathString 当前的文件夹
  * @param folders 要查找的文件夹的名字的数组
  * @param data 要返回的结果都可以向里面存，参数必须传递
+ * @param parents 正在查找的所有文件夹，快捷方式可能会指向它们
  */
 async function findDirCall(
     pathString: string,
     folders: string[],
-    data: string[]
+    data: string[],
+    parents: string[] = []
 ): Promise<string[]> {
     const files: Array<string> = [];
+    const current = [...parents, resolve(pathString)];
     const dirents: Array<Dirent> | null = await promises
         .readdir(pathString, {
             encoding: 'utf8',
@@ -42,7 +46,9 @@ async function findDirCall(
                 continue;
             }
 
-            files.push(...(await findDirCall(absolutePath, folders, data)));
+            files.push(
+                ...(await findDirCall(absolutePath, folders, data, current))
+            );
 
             continue;
         }
@@ -52,9 +58,14 @@ async function findDirCall(
             const targetPath = await readLnk(absolutePath).catch(() => null);
             if (!targetPath) continue;
 
-            if (extname(targetPath) === '') {
+            if (await isDir(targetPath)) {
+                // 指向正在查找的文件夹的快捷方式不能再次查找，否则会无限循环
+                if (current.some(p => relative(p, targetPath) === '')) continue;
+
                 // 如果是文件夹
-                files.push(...(await findDirCall(targetPath, folders, data)));
+                files.push(
+                    ...(await findDirCall(targetPath, folders, data, current))
+                );
             } else {
                 // 不是文件夹，那么就是文件了
                 files.push(targetPath);
-- 
2.43.0


From 903a2285e6248ab2d60281a74fba1666e16cbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 80/89] fix: testSome and testEvery must not depend on, or
 change, a regular expression's lastIndex

---
 packages/regexp/src/testEvery.ts | 2 +-
 packages/regexp/src/testSome.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 5fd75bd..5a0f360 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -32,7 +32,7 @@ export default function testEvery(
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (!regexps[i].test(str)) {
+        if (str.search(regexps[i]) === -1) {
             return false;
         }
     }
diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index e8430be..37677cb 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -29,7 +29,7 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (regexps[i].test(str)) {
+        if (str.search(regexps[i]) !== -1) {
             return true;
         }
     }
-- 
2.43.0


From 8c69a6e71300d12ceb6e6e9358faff282cbe45a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 81/89] fix: execAll works on its own copy of the regular
 expression and ends on empty matches

---
 packages/regexp/src/execAll.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..107b617 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -160,7 +160,6 @@ export default function execAll(
     keyOrCallback?: any
 ): any {
     const res = [];
-    let match: RegExpExecOrigin | null = null;
 
     do {
         if (isString(keyOrCallback) || isNumber(keyOrCallback)) {
@@ -181,10 +180,15 @@ export default function execAll(
         keyOrCallback = (match: RegExpExecOrigin) => match;
     } while (false);
 
-    do {
-        match = reg.exec(str) as RegExpExecOrigin;
+    // 使用副本进行匹配，不受 `lastIndex` 的影响，也不会修改传入的正则表达式
+    const matcher = new RegExp(reg.source, reg.flags);
+    const matches = matcher.global
+        ? str.matchAll(matcher)
+        : [matcher.exec(str)];
+
+    for (const match of matches) {
         match && res.push(keyOrCallback(match));
-    } while (reg.global && match);
+    }
 
     return res;
 }
-- 
2.43.0


From bb2924bda82842f285d6b2a52aca24554dc67e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 82/89] fix: splitSetCookie ends on trailing white space

---
 packages/cookie/src/setCookie/split.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..40d0eab 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -7,7 +7,7 @@ const skipSpace = (cookie: string, index: number) => {
         index += 1;
     }
 
-    return index < cookie.length;
+    return index;
 };
 
 /**
@@ -56,14 +56,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while ((index = skipSpace(cookie, index)) < cookie.length) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
-                nextStart = index;
+                nextStart = index = skipSpace(cookie, index);
 
                 while (index < cookie.length && isSpecial()) {
                     index += 1;
-- 
2.43.0


From 79c2ab4ca5c3e849aa19c64f190d663c61998704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 83/89] fix: fromCascadeKeys leaves the caller's keys alone and
 keeps the second of two keys

---
 packages/object/src/cascade/fromCascadeKeys.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..1e48767 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -56,7 +56,7 @@ export default function fromCascadeKeys(
     }
 
     // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    let first = addPack(keys[0], oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
@@ -69,5 +69,8 @@ export default function fromCascadeKeys(
     }
 
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return keys
+        .slice(1)
+        .reduce((m, k) => (m.push(addPack(k, oc)), m), [first])
+        .join('');
 }
-- 
2.43.0


From 16ad330a5a4ff1fcf202e36d3b4471eb474fb676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 84/89] fix: deleteAttrs leaves the caller's list of keys alone

---
 packages/object/src/deleteAttrs.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..c8e9ad9 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -22,13 +22,15 @@ export default function deleteAttrs<T extends ObjectType>(
     obj: T,
     deleteKeys: Array<keyof T>
 ): T {
+    // 不修改传入的数组
+    const keys = deleteKeys.slice();
     let key: PropertyKey | undefined;
 
-    while (!isUndefined((key = deleteKeys.pop()))) {
+    while (!isUndefined((key = keys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
-            deleteKeys.push(key as keyof T);
+            keys.push(key as keyof T);
 
-            return derive(obj, deleteKeys);
+            return derive(obj, keys);
         }
     }
 
-- 
2.43.0


From c80cb477e4b82c752e7cee1bdeeceac18ecfb0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 85/89] fix: copy of a Map or Set no longer shares its members
 with the source

---
 packages/util/src/copy.ts | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 809e784..9c9a00b 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -145,12 +145,26 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
         // `String` 为 `string` 的包装的形式
         case 'Date':
         case 'FileReader':
-        case 'Set':
-        case 'Map':
         case 'URL':
         case 'URLSearchParams':
             return copyBaseType(value);
 
+        case 'Set': {
+            const set = new value.constructor();
+            weak.set(value, set);
+            value.forEach((v: any) => set.add(recursiveCopy(v, weak)));
+            return set;
+        }
+
+        case 'Map': {
+            const map = new value.constructor();
+            weak.set(value, map);
+            value.forEach((v: any, k: any) =>
+                map.set(recursiveCopy(k, weak), recursiveCopy(v, weak))
+            );
+            return map;
+        }
+
         case 'Generator':
             return copyGenerator(value);
 
-- 
2.43.0


From 1424d7e5a02fae4b731bb06d718404514dcd9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 86/89] fix: assertEqual and assertNotEqual compare with each
 value, not with the list of them

---
 packages/asserts/src/cmp/assertEqual.ts    | 2 +-
 packages/asserts/src/cmp/assertNotEqual.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..a479b8a 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
+    if (!isNotEqual(value, ...args)) {
         throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From 2639732d7478740071da1880584e4e9e7d0a3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 87/89] fix: assertPrototypeOf takes the object whose prototype
 chain is checked

---
 packages/asserts/src/property/assertPrototypeOf.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/property/assertPrototypeOf.ts b/packages/asserts/src/property/assertPrototypeOf.ts
index bbf249e..8cf929d 100644
--- a/packages/asserts/src/property/assertPrototypeOf.ts
+++ b/packages/asserts/src/property/assertPrototypeOf.ts
@@ -7,11 +7,13 @@ import typeGuard from '../constants/typeGuard';
  *
  * @param value 要验证的值
  * @param variableName 该值的变量名
+ * @param v 要检查其原型链的另一个对象
  * @throws 如果不是则会抛出类型异常
  */
 export default function assertPrototypeOf<T = unknown>(
     value: unknown,
-    variableName: string
+    variableName: string,
+    v: unknown
 ): asserts value is T {
-    return typeGuard(value, variableName, isPrototypeOf);
+    return typeGuard(value, variableName, isPrototypeOf, v);
 }
-- 
2.43.0


From 377096f558ba60cbe6392ad936725c67cb8f2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 88/89] fix: a quote or backslash in a property path is part of
 the key, not code

---
 packages/object/src/cascade/fromCascadeKeys.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index 1e48767..c05bc74 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -19,11 +19,15 @@ const addPack = (
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
-    if (/^('[^']+'|"[^"]+")$/.test(key)) {
+    if (/^('[^'\\\r\n]+'|"[^"\\\r\n]+")$/.test(key)) {
         return `[${key}]`;
     }
 
-    return `['${key}']`;
+    // 转义引号、反斜线和换行符，避免属性名中的内容成为代码
+    return `['${String(key)
+        .replace(/['\\]/g, '\\$&')
+        .replace(/\r/g, '\\r')
+        .replace(/\n/g, '\\n')}']`;
 };
 
 /**
-- 
2.43.0


From f7f383946e2c3b6dc217ba9b46abf1243699c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 89/89] fix: show the duration of a logged wait independently
 of the local time zone

---
 packages/function/src/timeout/timeoutLog.ts | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/packages/function/src/timeout/timeoutLog.ts b/packages/function/src/timeout/timeoutLog.ts
index c3f7fcc..9789dda 100644
--- a/packages/function/src/timeout/timeoutLog.ts
+++ b/packages/function/src/timeout/timeoutLog.ts
@@ -1,7 +1,8 @@
 import { isUint } from '@curong/types';
 
 const padZero = (num: number | string) => num.toString().padStart(2, '0');
-const initTime = new Date('2000-01-01 00:00:00').getTime();
+// 使用 UTC 时间，避免输出受到本地时区规则（夏令时、时区变更）的影响
+const initTime = Date.UTC(2000, 0, 1);
 
 /**
  * 将超时时间打印为一个可读的字符串格式。包含天、小时、分钟和秒
@@ -23,14 +24,14 @@ export default function timeoutLog(
 
     const date = new Date(initTime + duration);
     let formatString: string;
-    let millisecond = date.getMilliseconds().toString();
+    let millisecond = date.getUTCMilliseconds().toString();
 
     if (duration < 1e3) {
         formatString = `${millisecond}ms`;
     } else {
-        const seconds = padZero(date.getSeconds());
-        const minutes = padZero(date.getMinutes());
-        const hours = padZero(date.getHours());
+        const seconds = padZero(date.getUTCSeconds());
+        const minutes = padZero(date.getUTCMinutes());
+        const hours = padZero(date.getUTCHours());
         millisecond =
             millisecond === '0' ? '' : `.${millisecond.padStart(3, '0')}`;
 
@@ -38,7 +39,7 @@ export default function timeoutLog(
             formatString = `${hours}:${minutes}:${seconds}${millisecond}`;
         } else {
             formatString =
-                `${date.getDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
+                `${date.getUTCDate() - 1}天 ${hours}:${minutes}:${seconds}${millisecond}`.replace(
                     ' 00:00:00',
                     ''
                 );
-- 
2.43.0

