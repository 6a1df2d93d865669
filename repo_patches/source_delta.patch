From 49013ffc40a35ee06ccdc03e7fa4b5d598c87e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:22 +0000
Subject: [PATCH 01/25] fix: Map equality ignored additional bindings of the
 right operand

---
 expression/collections/map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..6428c57 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,7 +237,8 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
-        return True
+        # Equal only if the other map has no more bindings left
+        return next(iterator, None) is None
 
     def __bool__(self) -> bool:
         return not maptree.is_empty(self._tree)
-- 
2.43.0


From 302b90f7ffcb7ddc2f5c18216de8c77600d670e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:22 +0000
Subject: [PATCH 02/25] fix: Map.change to Nothing of an absent key raised
 EffectError on an empty branch

---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 6cfd43895665d894d81c33f7a3c8c48b41e2cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:22 +0000
Subject: [PATCH 03/25] fix: map.pick raised EffectError instead of KeyError
 when nothing is picked

---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6428c57..5314846 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -365,7 +365,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From 53a3ca4df1e06af07bb6dd56a20253416a20af72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:22 +0000
Subject: [PATCH 04/25] fix: building a Map from a long iterable exhausted the
 recursion limit

---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From 861664ddee3aa63211534ef66fe0f7f878a17f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:31 +0000
Subject: [PATCH 05/25] fix: indexed of Block and TypedArray ignored the start
 index

---
 expression/collections/array.py | 4 ++--
 expression/collections/block.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From 2b6d582ef08e3d44df5201417c4d318c60bcca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:54 +0000
Subject: [PATCH 06/25] fix: a registration racing with cancellation could be
 lost silently

---
 expression/system/cancellation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..617cd51 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -86,10 +86,12 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            # Check while holding the lock, or else the listener may be lost if
+            # disposed at the same time.
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From 249eeb523436086ede2d2318a99df58657427538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:54 +0000
Subject: [PATCH 07/25] fix: registering with the none token raised
 ObjectDisposedException

---
 expression/system/cancellation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 617cd51..40a7ff9 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -46,6 +46,10 @@ class CancellationToken:
             raise ObjectDisposedException()
 
     def register(self, callback: Callable[[], None]) -> Disposable:
+        if not self.can_be_canceled:
+            # Will never be cancelled, so there is nothing to register for.
+            return Disposable.create(lambda: None)
+
         return self._source.register_internal(callback)
 
     @staticmethod
-- 
2.43.0


From f10908cce64a398e6d3a938666cb63d7217b4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:54 +0000
Subject: [PATCH 08/25] fix: a reply of None was never delivered by
 post_and_async_reply

---
 expression/core/mailbox.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..bf22e5d 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -16,7 +16,7 @@ import asyncio
 from collections.abc import Awaitable, Callable
 from queue import SimpleQueue
 from threading import RLock
-from typing import Any, Generic, TypeVar
+from typing import Any, Generic, TypeVar, cast
 
 from expression.system import CancellationToken, OperationCanceledError
 
@@ -78,17 +78,20 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
+        has_reply = False
         result: _Reply | None = None
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if has_reply and continuation is not None:
+                continuation(cast("_Reply", result))
 
         def reply_callback(res: _Reply):
-            nonlocal result
-            result = res
+            nonlocal has_reply, result
+            if has_reply:  # Only the first reply counts
+                return
+            has_reply, result = True, res
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From 7776b3d4a170f11fb15f837810a8c0ca7b1f38a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:54 +0000
Subject: [PATCH 09/25] fix: cancelling a waiting MailboxProcessor.receive lost
 the next message

---
 expression/core/mailbox.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index bf22e5d..ac443f2 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -13,8 +13,8 @@
 from __future__ import annotations
 
 import asyncio
+from collections import deque
 from collections.abc import Awaitable, Callable
-from queue import SimpleQueue
 from threading import RLock
 from typing import Any, Generic, TypeVar, cast
 
@@ -37,7 +37,7 @@ class AsyncReplyChannel(Generic[_Reply]):
 
 class MailboxProcessor(Generic[_Msg]):
     def __init__(self, cancellation_token: CancellationToken | None) -> None:
-        self.messages: SimpleQueue[_Msg] = SimpleQueue()
+        self.messages: deque[_Msg] = deque()
         self.token = cancellation_token or CancellationToken.none()
         self.loop = asyncio.get_event_loop()
         self.lock = RLock()
@@ -46,6 +46,8 @@ class MailboxProcessor(Generic[_Msg]):
         # returned by `receive`.
         self.continuation: Continuation[_Msg] | None = None
         self.cancel: Continuation[OperationCanceledError] | None = None
+        # The future of the last `receive`.
+        self.receiver: asyncio.Future[_Msg] | None = None
 
     def post(self, msg: _Msg) -> None:
         """Post a message synchronously to the mailbox processor.
@@ -60,7 +62,7 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             None
         """
-        self.messages.put(msg)
+        self.messages.append(msg)
         self.loop.call_soon_threadsafe(self.__process_events)
 
     def post_and_async_reply(self, build_message: Callable[[AsyncReplyChannel[_Reply]], _Msg]) -> Awaitable[_Reply]:
@@ -95,7 +97,7 @@ class MailboxProcessor(Generic[_Msg]):
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-        self.messages.put(build_message(reply_channel))
+        self.messages.append(build_message(reply_channel))
         self.__process_events()
 
         def callback(
@@ -124,15 +126,24 @@ class MailboxProcessor(Generic[_Msg]):
             error: Continuation[Exception],
             cancel: Continuation[OperationCanceledError],
         ):
-            if self.continuation:
-                raise Exception("Receive can only be called once!")
-
             self.continuation = done
             self.cancel = cancel
 
-            self.__process_events()
+        if self.continuation and not (self.receiver and self.receiver.done()):
+            raise Exception("Receive can only be called once!")
 
-        return await from_continuations(callback)
+        receiver = self.receiver = asyncio.ensure_future(from_continuations(callback))
+        self.__process_events()
+        try:
+            return await receiver
+        except asyncio.CancelledError:
+            if self.receiver is receiver:
+                self.continuation = None
+            if not receiver.cancelled():
+                # Cancelled after the message was handed over, so give it back.
+                self.messages.appendleft(receiver.result())
+                self.__process_events()
+            raise
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
@@ -147,9 +158,13 @@ class MailboxProcessor(Generic[_Msg]):
             return
 
         with self.lock:
-            if self.messages.empty():
+            if not self.messages:
+                return
+            if self.receiver is not None and self.receiver.done():
+                # The receiver was cancelled while waiting, keep the message.
+                self.continuation = None
                 return
-            msg = self.messages.get()
+            msg = self.messages.popleft()
             self.continuation, cont = None, self.continuation
 
             if cont is not None:  # type: ignore
-- 
2.43.0


From ba24e47cdf5ce1729f61b58fdf99a4808c49c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:54 +0000
Subject: [PATCH 10/25] fix: async effects without yield let the error of a
 failed await escape

---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From 652492c61768b2368cb94a7cf8969751a2cb172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:02 +0000
Subject: [PATCH 11/25] fix: many and the parsers built on it exhausted the
 recursion limit on long input

---
 expression/extra/parser.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..9269ba5 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -278,19 +278,19 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+    while True:
+        # run parser with the input
+        result = parser.run(input)
+
+        # test the result for Failure/Success
+        match result:
+            case Result(tag="ok", ok=(value, input_after_parse)):
+                # if parse succeeds, continue to get the subsequent values
+                values.append(value)
+                input = input_after_parse
+            case _:
+                return (Block(values), input)
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From e3f32933e0a3f1fe0e27ee350f48ff130b9b36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:02 +0000
Subject: [PATCH 12/25] fix: long pstring literals and any_of alphabets
 exhausted the recursion limit

---
 expression/extra/parser.py | 43 ++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 9269ba5..5fd77b2 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -157,7 +157,18 @@ def or_else(p1: Parser[_A], p2: Parser[_A]) -> Parser[_A]:
 
 
 def choice(list_of_parsers: Block[Parser[_A]]) -> Parser[_A]:
-    return list_of_parsers.reduce(lambda a, b: or_else(a)(b))
+    if list_of_parsers.is_empty():
+        raise ValueError("Collection was empty")
+
+    def run(input: Remaining) -> ParseResult[_A]:
+        result = list_of_parsers.head().run(input)
+        for parser in list_of_parsers.tail():
+            if result.is_ok():
+                break
+            result = parser.run(input)
+        return result
+
+    return Parser(run, f"choice({list_of_parsers})")
 
 
 def any_of(list_of_chars: str) -> Parser[str]:
@@ -248,23 +259,19 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
-
-    # lift it to Parser World
-    cons_p = lift2(cons)
-
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+        # run each parser where the previous one stopped
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=(value, remaining)):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
+        return Ok((Block(values), input))
+
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
-- 
2.43.0


From 25ea66473cc896bb2e1a28dc7778243244aec233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:02 +0000
Subject: [PATCH 13/25] fix: copying a tagged union subclass such as Try gave a
 value of the base class

---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..a746d38 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -168,11 +168,11 @@ def tagged_union(
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return type(self)(**{self.tag: getattr(self, self.tag)})
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
             value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return type(self)(**{self.tag: value})
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From e173373c0afec38f053af217fd0005434435c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:49 +0000
Subject: [PATCH 14/25] fix: seq.mapi consumed its whole source before the
 first element was asked for

---
 expression/collections/seq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..18d38ad 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -756,7 +756,11 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+
+    def gen():
+        return itertools.starmap(mapping, builtins.enumerate(source))
+
+    return SeqGen(gen)
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From 4dc9f8e32eab662f955a62caa8b9a71a9d83fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:49 +0000
Subject: [PATCH 15/25] fix: AsyncSeq.take asked its source for one element too
 many

---
 expression/collections/asyncseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..fa5597e 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -168,11 +168,13 @@ class AsyncSeq(AsyncIterable[TSource]):
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
             i = 0
+            if i >= count:
+                return
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From dc037a05026a9b5ac8470ad7684b84c3fd268927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:42 +0000
Subject: [PATCH 16/25] fix: validating an Option from JSON ignored the
 declared inner type

---
 expression/core/option.py | 46 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..b7d5513 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -342,38 +342,26 @@ class Option(
             _ = handler(v)
             return Nothing
 
-        python_schema = core_schema.union_schema(
-            [
-                core_schema.is_instance_schema(Option),
-                core_schema.chain_schema(
-                    [
-                        core_schema.none_schema(),
-                        core_schema.no_info_wrap_validator_function(validate_none, none_schema),
-                    ]
-                ),
-                core_schema.chain_schema(
-                    [
-                        # item_tp's schema should ensure the value is an instance of _T
-                        # is_instance_schema doesn't work for Annotated[_T, ...]
-                        # Use the value_schema to validate `values`
-                        core_schema.no_info_wrap_validator_function(validate_some, value_schema),
-                    ]
-                ),
-            ]
-        )
-
-        return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+        choices = [
+            core_schema.chain_schema(
+                [
+                    core_schema.none_schema(),
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                ]
+            ),
+            core_schema.chain_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # item_tp's schema should ensure the value is an instance of _T
+                    # is_instance_schema doesn't work for Annotated[_T, ...]
+                    # Use the value_schema to validate `values`
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
                 ]
             ),
-            python_schema=python_schema,
+        ]
+
+        return core_schema.json_or_python_schema(
+            json_schema=core_schema.union_schema([*choices], mode="left_to_right"),
+            python_schema=core_schema.union_schema([core_schema.is_instance_schema(Option), *choices]),
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
         )
 
-- 
2.43.0


From 75d36d1451c5f5fe1c9c6c44aff7cfb05d9c0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:42 +0000
Subject: [PATCH 17/25] fix: validating a Result from JSON raised TypeError

---
 expression/core/result.py | 43 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..c7c58fc 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -327,30 +327,25 @@ class Result(
                 core_schema.no_info_wrap_validator_function(validate_ok, ok_schema),
             ]
         )
-        json_schema = core_schema.chain_schema(
-            [
-                core_schema.union_schema(
-                    [
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "ok": core_schema.typed_dict_field(ok_schema),
-                            }
-                        ),
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "error": core_schema.typed_dict_field(error_schema),
-                            }
-                        ),
-                    ]
-                ),
-                # after validating the json data convert it to python
-                core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
-                    python_schema,
-                ),
-            ]
+        # after validating the json data convert it to python
+        json_schema = core_schema.no_info_after_validator_function(
+            lambda data: cls(**data),
+            core_schema.union_schema(
+                [
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"])),
+                            "ok": core_schema.typed_dict_field(ok_schema),
+                        }
+                    ),
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"])),
+                            "error": core_schema.typed_dict_field(error_schema),
+                        }
+                    ),
+                ]
+            ),
         )
 
         return core_schema.json_or_python_schema(
-- 
2.43.0


From 804effdc5dcb87cb8d1e60f5b493eb2061ce6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:42 +0000
Subject: [PATCH 18/25] fix: validating a Result from data that is not a dict
 raised TypeError

---
 expression/core/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index c7c58fc..1244c03 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -308,13 +308,13 @@ class Result(
         error_schema = handler.generate_schema(type_vars[1])
 
         def validate_ok(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "ok" not in v:
+            if not isinstance(v, builtins.dict) or "ok" not in v:
                 raise ValueError("Missing ok field")
             value = handler(v["ok"])
             return cls(ok=value)
 
         def validate_error(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "error" not in v:
+            if not isinstance(v, builtins.dict) or "error" not in v:
                 raise ValueError("Missing error field")
 
             value = handler(v["error"])
-- 
2.43.0


From 1a1d350cd0d31e3ab2825491044befc954b25995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:34 +0000
Subject: [PATCH 19/25] fix: Seq.concat and Seq.collect consumed their source
 eagerly

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 18d38ad..e833eec 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return Seq(pipe(self, collect(identity)))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
-- 
2.43.0


From a7fd057f3369678918e8ff2157728653a81ee9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:22 +0000
Subject: [PATCH 20/25] fix: seq.scan dropped an initial state of None

---
 expression/collections/seq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index e833eec..3557c4b 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(pipe(self, scan(scanner, state)))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -865,7 +865,8 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    # accumulate(initial=None) means no initial value, so prepend the state instead.
+    return itertools.accumulate(itertools.chain([state], source), scanner)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From b10172a6bb82b5c8ef44a5d5ecd53783e7d3b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:25 +0000
Subject: [PATCH 21/25] fix: iterating an effect.seq of a few hundred
 statements exhausted the recursion limit

---
 expression/effect/seq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..ec106ec 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -58,7 +58,8 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        # One flat sequence: nesting a lazy `concat` per statement exhausts the recursion limit.
+        return seq.of_list([*xs, *ys])
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
-- 
2.43.0


From bf0485059db865f50197ed0df9ddea23a1328070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:08 +0000
Subject: [PATCH 22/25] fix: curry silently dropped keyword arguments given
 before the last group

---
 expression/core/curry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/core/curry.py b/expression/core/curry.py
index e6ccb1c..9c88710 100644
--- a/expression/core/curry.py
+++ b/expression/core/curry.py
@@ -19,7 +19,7 @@ def _curry(args: tuple[Any, ...], arity: int, fun: Callable[..., Any]) -> Callab
     def wrapper(*args_: Any, **kw: Any) -> Any:
         if arity == 1:
             return fun(*args, *args_, **kw)
-        return _curry(args + args_, arity - 1, fun)
+        return _curry(args + args_, arity - 1, functools.partial(fun, **kw) if kw else fun)
 
     return wrapper
 
-- 
2.43.0


From f70b1797cd6e5e650f93ebdc1cac76675cd5b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:43 +0000
Subject: [PATCH 23/25] fix: cancelling a token from another thread did not
 wake up the started task's loop

---
 expression/core/aiotools.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..a82a99a 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -11,6 +11,7 @@ by itself.
 import asyncio
 from asyncio import Future, Task
 from collections.abc import Awaitable, Callable
+from threading import get_ident
 from typing import Any, TypeVar
 
 from expression.system import CancellationToken, OperationCanceledError
@@ -68,6 +69,19 @@ def from_continuations(callback: Callbacks[_TSource]) -> Awaitable[_TSource]:
 __running_tasks: set[Task[Any]] = set()
 
 
+def _canceller(task: Task[Any]) -> Callable[[], None]:
+    """Callback that cancels the task, also when called by another thread."""
+    loop, thread = task.get_loop(), get_ident()
+
+    def cancel() -> None:
+        if get_ident() == thread:
+            task.cancel()
+        else:
+            loop.call_soon_threadsafe(task.cancel)
+
+    return cancel
+
+
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
     """Start computation.
 
@@ -86,11 +100,8 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
 
-    def cb():
-        task.cancel()
-
     if token:
-        token.register(cb)
+        token.register(_canceller(task))
     return None
 
 
@@ -109,11 +120,8 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
 
-    def cb() -> None:
-        task.cancel()
-
     if token:
-        token.register(cb)
+        token.register(_canceller(task))
     return None
 
 
-- 
2.43.0


From b706252a925d81be14e815e30da6aa4f2872d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:18 +0000
Subject: [PATCH 24/25] fix: a computation started with an already cancelled
 token was refused but run

---
 expression/core/aiotools.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index a82a99a..30fae86 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -14,7 +14,7 @@ from collections.abc import Awaitable, Callable
 from threading import get_ident
 from typing import Any, TypeVar
 
-from expression.system import CancellationToken, OperationCanceledError
+from expression.system import CancellationToken, ObjectDisposedException, OperationCanceledError
 
 
 _TSource = TypeVar("_TSource")
@@ -101,7 +101,11 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     __running_tasks.add(task)
 
     if token:
-        token.register(_canceller(task))
+        try:
+            token.register(_canceller(task))
+        except ObjectDisposedException:
+            task.cancel()  # Already cancelled, so the computation must not run
+            raise
     return None
 
 
@@ -121,7 +125,11 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     __running_tasks.add(task)
 
     if token:
-        token.register(_canceller(task))
+        try:
+            token.register(_canceller(task))
+        except ObjectDisposedException:
+            task.cancel()  # Already cancelled, so the computation must not run
+            raise
     return None
 
 
-- 
2.43.0


From 790d7415f66f05e07b8a2a3728f335229cc00ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:36 +0000
Subject: [PATCH 25/25] fix: the sequence returned by Map.to_seq was empty when
 traversed a second time

---
 expression/collections/maptree.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index a658ca5..64297c8 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -27,7 +27,7 @@ from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Generic, TypeVar
 
-from expression.core import Nothing, Option, Some, failwith, pipe
+from expression.core import Nothing, Option, Some, failwith
 from expression.core.typing import SupportsLessThanAndHash
 
 from . import block, seq
@@ -516,14 +516,5 @@ def mk_iterator(m: MapTree[Key, Value]) -> Iterator[tuple[Key, Value]]:
 
 
 def to_seq(s: MapTree[Key, Value]) -> Iterable[tuple[Key, Value]]:
-    it = mk_iterator(s)
-
-    def folder(it: Iterator[tuple[Key, Value]]):
-        try:
-            current = next(it)
-        except StopIteration:
-            return Nothing
-        else:
-            return Some((current, it))
-
-    return pipe(it, seq.unfold(folder))
+    # A fresh iterator for each traversal
+    return seq.delay(lambda: mk_iterator(s))
-- 
2.43.0

