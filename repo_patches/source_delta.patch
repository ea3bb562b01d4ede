From ab1c883f4d33d1c7f727efd52241d63ef8ed8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 01/52] fix: Call reports an error when the wait for its
 handlers times out

localCall stored the timeout only in mw.Err and returned nil, so a caller
whose handler had not finished was told the call had succeeded.
---
 core/node/system_impl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..503e3a5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -297,6 +297,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
 		mw.Done = make(chan struct{})
 		ready := make(chan struct{})
+		var waitErr error // written before mw.Done is closed
 		go func() {
 			<-ready // Wait for Received to complete
 
@@ -312,8 +313,9 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 			case <-time.After(sys.callTimeout):
 				log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
 					mw.Req.Header.Event, mw.Req.Header.TargetActorID, mw.GetWg().Count())
+				waitErr = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
 				if mw.Err == nil {
-					mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
+					mw.Err = waitErr
 				}
 			}
 
@@ -328,7 +330,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 		select {
 		case <-mw.Done:
-			return nil
+			return waitErr
 		case <-mw.Ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
 				mw.Req.Header.TargetActorID, mw.Req.Header.Event)
-- 
2.43.0


From 6ce03ad1ea9ab93f1349d2129a847baddd6d2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:54 +0000
Subject: [PATCH 02/52] fix: exiting an actor twice no longer panics

Two Unregister/Exit calls for the same actor (or a node exit during an
Unregister) closed shutdownCh twice.
---
 core/actor/actor_runtime_impl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..195c4e4 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime/debug"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -31,6 +32,7 @@ type Runtime struct {
 	closed       int32
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
+	exitOnce     sync.Once
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
@@ -364,6 +366,10 @@ func (a *Runtime) update() {
 }
 
 func (a *Runtime) Exit() {
+	a.exitOnce.Do(a.exit) // a repeated or concurrent Exit waits for the first one
+}
+
+func (a *Runtime) exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
 	close(a.shutdownCh) // 发送关闭信号
 	<-a.closeCh         // 等待所有消息处理完毕
-- 
2.43.0


From eeb48befed747a3c3bdb677f461554097779134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 03/52] fix: an exiting actor handles every message it accepted
 before Exit returns

Received checked closed and pushed without excluding the transition to
closed, so a message could be accepted (nil error) and never handled, and
its caller wait for it; and Exit returned while the last dequeued message
was still being handled.
---
 core/actor/actor_runtime_impl.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 195c4e4..d659c17 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -33,6 +33,8 @@ type Runtime struct {
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	exitOnce     sync.Once
+	doneCh       chan struct{} // closed when the update loop has returned
+	acceptMu     sync.RWMutex  // a message is either queued before closed is set, or refused
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
@@ -57,6 +59,7 @@ func (a *Runtime) Init(ctx context.Context) {
 	atomic.StoreInt32(&a.closed, 0) // 初始化closed状态为0（未关闭）
 	a.closeCh = make(chan struct{})
 	a.shutdownCh = make(chan struct{})
+	a.doneCh = make(chan struct{})
 	a.chains = make(map[string]core.IChain)
 	a.recovery = defaultRecovery
 	a.actorCtx = &actorContext{
@@ -179,6 +182,9 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	a.acceptMu.RLock()
+	defer a.acceptMu.RUnlock()
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -280,6 +286,8 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 }
 
 func (a *Runtime) update() {
+	defer close(a.doneCh)
+
 	checkClose := func() {
 		timeout := time.After(10 * time.Second)
 		ticker := time.NewTicker(10 * time.Millisecond)
@@ -354,7 +362,10 @@ func (a *Runtime) update() {
 			}
 
 		case <-a.shutdownCh:
-			if atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
+			a.acceptMu.Lock()
+			closing := atomic.CompareAndSwapInt32(&a.closed, 0, 1)
+			a.acceptMu.Unlock()
+			if closing {
 				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
 				go checkClose()
 			}
@@ -374,6 +385,13 @@ func (a *Runtime) exit() {
 	close(a.shutdownCh) // 发送关闭信号
 	<-a.closeCh         // 等待所有消息处理完毕
 
+	// The queue is empty, but its last message may still be being handled
+	select {
+	case <-a.doneCh:
+	case <-time.After(10 * time.Second):
+		log.WarnF("[braid.actor] %s exit without waiting for a stuck handler", a.Id)
+	}
+
 	for t := range a.timers {
 		a.CancelTimer(t)
 	}
-- 
2.43.0


From 9c6f6728b87e5c4242fa96e0f23b1c80f91d2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 04/52] fix: a cancelled timer stays silent, and cancelling one
 before its due time works

Stop and Reset used the ticker before it existed (nil dereference when a
timer was cancelled, or its actor exited, before the due time), ticks
already queued ran after CancelTimer, a timer stopped before its due time
started ticking anyway, and Reset of a stopped timer to its old interval
reported success and left it stopped.
---
 core/actor/actor_runtime_impl.go |  4 ++--
 core/actor/actor_timer.go        | 32 +++++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index d659c17..eb635c5 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -115,7 +115,7 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 			a.timerChan <- info
 		}
 
-		info.ticker = time.NewTicker(info.interval)
+		info.start()
 
 		for {
 			select {
@@ -313,7 +313,7 @@ func (a *Runtime) update() {
 	for {
 		select {
 		case timerInfo := <-a.timerChan:
-			if atomic.LoadInt32(&a.closed) != 0 {
+			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
 			func() {
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..ca89208 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -16,22 +17,42 @@ type TimerInfo struct {
 	args     interface{}
 	active   atomic.Bool  // 使用原子操作保证线程安全
 	nextTick atomic.Value // 下次触发时间
+	mu       sync.Mutex   // guards ticker and interval
+}
+
+// start creates the ticker once the due time has passed; the timer may have been stopped by then.
+func (t *TimerInfo) start() {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
+	t.ticker = time.NewTicker(t.interval)
+	if !t.active.Load() {
+		t.ticker.Stop()
+	}
 }
 
 func (t *TimerInfo) Stop() bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	if !t.active.Load() {
 		return false
 	}
 	t.active.Store(false)
-	t.ticker.Stop()
+	if t.ticker != nil { // not created before the due time
+		t.ticker.Stop()
+	}
 
 	return true
 }
 
 func (t *TimerInfo) Reset(interval time.Duration) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
-		if t.interval == interval {
+		if t.interval == interval && t.active.Load() {
 			return true
 		}
 		t.interval = interval
@@ -43,7 +64,9 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	t.active.Store(true)
 	t.nextTick.Store(time.Now().Add(t.interval))
 
-	t.ticker.Reset(t.interval)
+	if t.ticker != nil {
+		t.ticker.Reset(t.interval)
+	}
 	return true
 }
 
@@ -52,6 +75,9 @@ func (t *TimerInfo) IsActive() bool {
 }
 
 func (t *TimerInfo) Interval() time.Duration {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	return t.interval
 }
 
-- 
2.43.0


From 7c25b15c8fa2729ffe5f06c8d4898a2cbf5f8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 05/52] fix: a timer without interval fires once instead of
 crashing the process

OnTimer documents interval 0 as "executes only once"; it passed 0 to
time.NewTicker, which panics, in a goroutine of its own.
---
 core/actor/actor_runtime_impl.go |  7 ++++++-
 core/actor/actor_timer.go        | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index eb635c5..285d2d2 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -115,7 +115,12 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 			a.timerChan <- info
 		}
 
-		info.start()
+		if !info.start() { // executes only once
+			if info.dueTime <= 0 {
+				a.timerChan <- info
+			}
+			return
+		}
 
 		for {
 			select {
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index ca89208..4d58d3d 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -17,18 +17,25 @@ type TimerInfo struct {
 	args     interface{}
 	active   atomic.Bool  // 使用原子操作保证线程安全
 	nextTick atomic.Value // 下次触发时间
-	mu       sync.Mutex   // guards ticker and interval
+	once     bool         // no interval: fires once, at its due time
+	mu       sync.Mutex   // guards ticker, interval and once
 }
 
 // start creates the ticker once the due time has passed; the timer may have been stopped by then.
-func (t *TimerInfo) start() {
+// Returns false if the timer has no interval.
+func (t *TimerInfo) start() bool {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
+	if t.interval <= 0 {
+		t.once = true
+		return false
+	}
 	t.ticker = time.NewTicker(t.interval)
 	if !t.active.Load() {
 		t.ticker.Stop()
 	}
+	return true
 }
 
 func (t *TimerInfo) Stop() bool {
@@ -50,6 +57,9 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
+	if t.once {
+		return false
+	}
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
 		if t.interval == interval && t.active.Load() {
@@ -89,6 +99,9 @@ func (t *TimerInfo) NextTrigger() time.Time {
 }
 
 func (t *TimerInfo) Execute() error {
+	if t.Interval() <= 0 {
+		t.active.Store(false)
+	}
 	return t.callback(t.args)
 }
 
-- 
2.43.0


From 0b69704c6213143d004a2eb30c54a4e73533aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 06/52] fix: Then on a completed future returns a future that
 completes

It returned a fresh future nobody ever completed, so a chained callback
ran or not depending on how fast the call was.
---
 core/actor/actor_reenter_impl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..57e5761 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -26,8 +26,12 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	defer f.mutex.Unlock()
 
 	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
+		chained := NewFuture()
+		go func() {
+			callback(f.result)
+			chained.Complete(f.result)
+		}()
+		return chained
 	}
 
 	newFuture := NewFuture()
-- 
2.43.0


From 46f722de1e9ff517575f17bc02ab659cbe9fd52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 07/52] fix: removing an actor record twice, or from another
 node, keeps node weights right

AddressBook.Unregister read the record and then removed it in a separate
pipeline, so two concurrent calls both subtracted the weight, and always
from the calling node rather than the node in the record. A record already
removed elsewhere also left the id in IDMap, so it could not be registered
again.
---
 core/addressbook/addressbook_impl.go | 42 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..ec48808 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -103,6 +103,9 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
+		if err == redis.Nil {
+			ab.forget(id)
+		}
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
@@ -112,25 +115,38 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("addressbook.unregister json unmarshal err %v", err.Error())
 	}
 
-	// execute multiple redis operations using pipeline
-	pipe := trdredis.Pipeline()
-	pipe.HDel(ctx, def.RedisAddressbookIDField, id)
-	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
-
-	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
-
-	_, err = pipe.Exec(ctx)
+	// remove the record and update the node that holds it, unless another caller already did
+	removed, err := unregisterScript.Run(ctx, trdredis.GetClient(), []string{
+		def.RedisAddressbookIDField,
+		fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy),
+		makeNodeKey(info.Node),
+	}, id, addrJSON, fmt.Sprintf("actor:%s", info.ActorTy), -weight).Int()
 	if err == nil {
-		ab.Lock()
-		delete(ab.IDMap, id) // try delete
-		ab.Unlock()
+		ab.forget(id) // try delete
+		if removed == 0 {
+			err = fmt.Errorf("address not found for id: %s", id)
+		}
 	}
 
 	return err
 }
 
+func (ab *AddressBook) forget(id string) {
+	ab.Lock()
+	delete(ab.IDMap, id)
+	ab.Unlock()
+}
+
+var unregisterScript = redis.NewScript(`
+if redis.call("hget", KEYS[1], ARGV[1]) ~= ARGV[2] then
+	return 0
+end
+redis.call("hdel", KEYS[1], ARGV[1])
+redis.call("srem", KEYS[2], ARGV[2])
+redis.call("hincrby", KEYS[3], ARGV[3], ARGV[4])
+redis.call("hincrby", KEYS[3], "total_weight", ARGV[4])
+return 1`)
+
 // GetByID get actor address by id
 func (ab *AddressBook) GetByID(ctx context.Context, id string) (core.AddressInfo, error) {
 
-- 
2.43.0


From 1c8589a6fbd3ff8600e7103370692d37b80605f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 08/52] fix: concurrent Register, Unregister and Call of one id
 leave node and address book agreeing

Register checked the id (and node uniqueness, from an unlocked map) long
before it stored the actor, so one id could be built twice; a Call or Send
that met an actor's record while it was being registered deleted the record
of the live actor; an Unregister overlapping a re-registration removed the
new actor; cleaning up a record of an unknown type dereferenced nil; and
NodeUnique was ignored unless a global limit was set as well.
---
 core/node/system_impl.go | 100 +++++++++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 24 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 503e3a5..ea54e0c 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,8 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	registering map[string]string // id -> type of the actors being registered
+	recordMu    sync.Mutex        // held while records of actors that are not running are removed
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +50,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -102,23 +105,17 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, fmt.Errorf("braid.system register actor id %v type %v parm err", builder.GetID(), builder.GetType())
 	}
 
-	sys.Lock()
-	if _, ok := sys.actoridmap[builder.GetID()]; ok {
-		sys.Unlock()
-		return nil, core.ErrActorRegisterRepeat
+	if err := sys.reserve(builder); err != nil {
+		return nil, err
 	}
-	sys.Unlock()
+	defer func() {
+		sys.Lock()
+		delete(sys.registering, builder.GetID())
+		sys.Unlock()
+	}()
 
 	if builder.GetGlobalQuantityLimit() != 0 {
 
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
-			}
-		}
-
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
 			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
@@ -151,6 +148,38 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// reserve claims the id of an actor for the duration of its registration.
+func (sys *NormalSystem) reserve(builder core.IActorBuilder) error {
+	sys.recordMu.Lock()
+	defer sys.recordMu.Unlock()
+	sys.Lock()
+	defer sys.Unlock()
+
+	if _, ok := sys.actoridmap[builder.GetID()]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+	if _, ok := sys.registering[builder.GetID()]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+
+	if builder.GetNodeUnique() {
+		unique := fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+		for _, v := range sys.actoridmap {
+			if v.Type() == builder.GetType() {
+				return unique
+			}
+		}
+		for _, ty := range sys.registering {
+			if ty == builder.GetType() {
+				return unique
+			}
+		}
+	}
+
+	sys.registering[builder.GetID()] = builder.GetType()
+	return nil
+}
+
 func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
@@ -162,12 +191,21 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	if exists {
 		// Call Exit on the actor
 		actor.Exit()
+	}
 
-		// Remove the actor from the map
-		sys.Lock()
-		delete(sys.actoridmap, id)
+	sys.recordMu.Lock()
+	defer sys.recordMu.Unlock()
+
+	// Remove the actor from the map
+	sys.Lock()
+	_, registering := sys.registering[id]
+	if cur, ok := sys.actoridmap[id]; registering || (ok && cur != actor) {
+		// The id has been registered anew, its record belongs to the new actor
 		sys.Unlock()
+		return nil
 	}
+	delete(sys.actoridmap, id)
+	sys.Unlock()
 
 	// Unregister from the address book
 	ac := sys.factory.Get(ty)
@@ -262,10 +300,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
-		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+		sys.dropStale(mw.Ctx, info.ActorId, actorType, event)
 
 		return ErrSelfCall
 	}
@@ -274,6 +309,26 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	return sys.handleRemoteCall(mw.Ctx, info, mw)
 }
 
+// dropStale removes the record of an actor that this node is said to run and does not.
+func (sys *NormalSystem) dropStale(ctx context.Context, id, actorType, event string) {
+	sys.recordMu.Lock()
+	defer sys.recordMu.Unlock()
+
+	sys.RLock()
+	_, live := sys.actoridmap[id]
+	_, registering := sys.registering[id]
+	sys.RUnlock()
+	ac := sys.factory.Get(actorType)
+	if live || registering || ac == nil {
+		return
+	}
+
+	if err := sys.addressbook.Unregister(ctx, id, ac.Weight); err != nil {
+		log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, id, err)
+	}
+	log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, id, event)
+}
+
 func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string) (core.IActor, core.AddressInfo, error) {
 	sys.RLock()
 
@@ -428,10 +483,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
-		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+		sys.dropStale(mw.Ctx, info.ActorId, actorType, event)
 		return ErrSelfCall
 	}
 
-- 
2.43.0


From c8d4d6b75928f5384b12389004683e31669b68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 09/52] fix: listing or exiting the actors of a node while they
 change no longer races on the map

---
 core/node/system_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index ea54e0c..f455166 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -225,6 +225,9 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 }
 
 func (sys *NormalSystem) Actors() []core.IActor {
+	sys.RLock()
+	defer sys.RUnlock()
+
 	actors := []core.IActor{}
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
@@ -528,7 +531,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From 2f9975d1e10a8d98e9e685debc2bd382694d215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 10/52] fix: concurrent registrations on several nodes stay
 within the global quantity limit

The count was checked before the record was added, so two nodes could both
pass the check for the last place.
---
 core/node/system_impl.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index f455166..2f89f08 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -131,6 +131,15 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, err
 	}
 
+	// Another node may have registered since the count was read, recheck with our own record counted
+	if limit := builder.GetGlobalQuantityLimit(); limit != 0 {
+		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
+		if err != nil || int(cnt) > limit {
+			sys.addressbook.Unregister(ctx, builder.GetID(), builder.GetWeight())
+			return nil, fmt.Errorf("braid.system actor %v global quantity limit current count %v err %v", builder.GetType(), cnt, err)
+		}
+	}
+
 	// Instantiate actor
 	var actor core.IActor
 	if builder.GetConstructor() != nil {
-- 
2.43.0


From b57bc54295f7d6508f593d748287ce1b4b2f3e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 11/52] fix: a remote call reports the error of the node that
 should have handled it

The acceptor logged the error of Call and answered with an empty success, so
calls to an unknown, closed or timed-out remote actor looked successful.
---
 core/node/system_acceptor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..0af5cfb 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -107,6 +107,7 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 
 	if err != nil {
 		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		return nil, err
 	}
 
 	res.Msg = routermsg.Res
-- 
2.43.0


From 7a1951e4ec516190fffd5ef17a1fd280a3c825f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 12/52] fix: sending to an actor on another node works

Client.Call only uses connections given when the client is built, and the
nil reply made gRPC fail to decode the answer of every delivered send.
---
 core/node/system_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 2f89f08..54c2288 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -503,11 +503,11 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
+	return sys.client.CallWait(mw.Ctx,
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+		&router.RouteRes{}) // We don't need the response for Send, but it has to be decoded
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-- 
2.43.0


From c0cafa8e86507c288d156c769582f7735c7e31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:57 +0000
Subject: [PATCH 13/52] fix: sending to another node does not wait for the
 handler there

The acceptor turned every routed message into a blocking Call, so Send
blocked its caller, for up to the call timeout, and failed when the remote
handler was slow. Sends are marked in the request's metadata and enqueued.
---
 core/node/system_acceptor.go | 25 +++++++++++++++++++++++++
 core/node/system_impl.go     |  3 ++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 0af5cfb..08f7f00 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -17,6 +17,7 @@ import (
 	"github.com/pojol/braid/router/msg"
 
 	realgrpc "google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
 
 	grpc_recovery "github.com/grpc-ecosystem/go-grpc-middleware/recovery"
 )
@@ -94,6 +95,10 @@ func (acceptor *Acceptor) Exit() {
 func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
 	res := &router.RouteRes{}
 
+	if len(metadata.ValueFromIncomingContext(ctx, sendKey)) != 0 {
+		return s.routingSend(ctx, req)
+	}
+
 	ctx = context.WithValue(ctx, msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
 
 	routermsg := msg.NewBuilder(ctx).Build()
@@ -113,3 +118,23 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 	res.Msg = routermsg.Res
 	return res, nil
 }
+
+// sendKey marks, in the metadata of a routing request, a message nobody waits for.
+const sendKey = "braid-send"
+
+// routingSend passes the message on without waiting for its handler, which outlives the request.
+func (s *listen) routingSend(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
+	routermsg := msg.NewBuilder(context.WithoutCancel(ctx)).Build()
+	routermsg.Req = req.Msg
+	routermsg.Req.Header.PrevActorType = "GrpcAcceptor"
+
+	err := s.sys.Send(
+		req.Msg.Header.TargetActorID,
+		req.Msg.Header.TargetActorType,
+		req.Msg.Header.Event, routermsg)
+	if err != nil {
+		return nil, err
+	}
+
+	return &router.RouteRes{}, nil
+}
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 54c2288..3561fbe 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -19,6 +19,7 @@ import (
 	"github.com/pojol/braid/router"
 	"github.com/pojol/braid/router/msg"
 	realgrpc "google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
 )
 
 type NormalSystem struct {
@@ -503,7 +504,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.CallWait(mw.Ctx,
+	return sys.client.CallWait(metadata.AppendToOutgoingContext(mw.Ctx, sendKey, "1"),
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-- 
2.43.0


From 74d888c66a4e54f72205ae9e22e564fc6f2c113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 14/52] fix: an actor registered while its id is unregistered
 does not stay listed after it exited

---
 core/node/system_impl.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 3561fbe..0eb0ad5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -109,10 +109,13 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	if err := sys.reserve(builder); err != nil {
 		return nil, err
 	}
+	entered := false
 	defer func() {
-		sys.Lock()
-		delete(sys.registering, builder.GetID())
-		sys.Unlock()
+		if !entered {
+			sys.Lock()
+			delete(sys.registering, builder.GetID())
+			sys.Unlock()
+		}
 	}()
 
 	if builder.GetGlobalQuantityLimit() != 0 {
@@ -152,6 +155,8 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 
 	sys.Lock()
 	sys.actoridmap[builder.GetID()] = actor
+	delete(sys.registering, builder.GetID())
+	entered = true
 	sys.Unlock()
 
 	log.InfoF("braid.system node %v register %v %v succ", sys.addressbook.NodeID, builder.GetType(), builder.GetID())
-- 
2.43.0


From ba753280c88da9fdd285bed41f8f110a86da3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 15/52] fix: publishing to a topic the node has not subscribed
 to no longer panics

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 0eb0ad5..b05f095 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -517,7 +517,7 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-- 
2.43.0


From 1bfb8208572ce50ca7b611f6aa6548c289e663f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 16/52] fix: the options of the first subscription to a topic
 take effect

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index b05f095..7a81503 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -521,7 +521,7 @@ func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From a27964427b95096cc70dcbeb0d597d637705956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:43 +0000
Subject: [PATCH 17/52] fix: a subscription has its handler before its first
 message, and registering one no longer races with messages

---
 core/actor/actor_runtime_impl.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 285d2d2..03dd8e0 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -36,6 +36,7 @@ type Runtime struct {
 	doneCh       chan struct{} // closed when the update loop has returned
 	acceptMu     sync.RWMutex  // a message is either queued before closed is set, or refused
 	chains       map[string]core.IChain
+	chainsMu     sync.RWMutex
 	recovery     RecoveryFunc
 
 	timers    map[core.ITimer]struct{}
@@ -84,13 +85,30 @@ func (a *Runtime) Context() core.ActorContext {
 }
 
 func (a *Runtime) OnEvent(ev string, chainFunc func(ctx core.ActorContext) core.IChain) error {
+	repeat := fmt.Errorf("actor: repeat register event %v", ev)
+	if _, exists := a.chain(ev); exists {
+		return repeat
+	}
+	chain := chainFunc(a.actorCtx)
+
+	// Messages of earlier subscriptions may already be being handled
+	a.chainsMu.Lock()
+	defer a.chainsMu.Unlock()
 	if _, exists := a.chains[ev]; exists {
-		return fmt.Errorf("actor: repeat register event %v", ev)
+		return repeat
 	}
-	a.chains[ev] = chainFunc(a.actorCtx)
+	a.chains[ev] = chain
 	return nil
 }
 
+func (a *Runtime) chain(ev string) (core.IChain, bool) {
+	a.chainsMu.RLock()
+	defer a.chainsMu.RUnlock()
+
+	c, ok := a.chains[ev]
+	return c, ok
+}
+
 // OnTimer register timer
 //
 //	dueTime: Delay time before starting the timer (in milliseconds). If 0, starts immediately
@@ -159,10 +177,11 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
-	ch.Arrived(a.q)
-
+	// The handler has to be there before the first message is
 	a.OnEvent(channel, callback)
 
+	ch.Arrived(a.q)
+
 	return nil
 }
 
@@ -350,7 +369,7 @@ func (a *Runtime) update() {
 					mw.GetWg().Done()
 				}()
 
-				if chain, ok := a.chains[mw.Req.Header.Event]; ok {
+				if chain, ok := a.chain(mw.Req.Header.Event); ok {
 					err := chain.Execute(mw)
 					if err != nil {
 						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
-- 
2.43.0


From 5e671f0352ff45e933bae48ceb2fac2cc6b5f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:49 +0000
Subject: [PATCH 18/52] fix: a topic keeps a message until each of its channels
 has handled it

---
 lib/pubsub/ps_channel.go | 51 +++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 751eae7..0fcbc74 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -2,6 +2,7 @@ package pubsub
 
 import (
 	"context"
+	"fmt"
 	"sync/atomic"
 	"time"
 
@@ -89,7 +90,6 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 			}
 			c.msgCh.Load()
 
-			pipe := thdredis.Pipeline()
 			recvmsg, ok := m.(*router.Message)
 			if !ok {
 				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
@@ -102,19 +102,54 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 			mb.GetWg().Add(1)
 			queue.Push(mb)
 
-			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
-			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
-
-			_, err := pipe.Exec(context.TODO())
-			if err != nil {
-				log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
-			}
+			c.ack(context.TODO(), recvmsg.Header.ID)
 		}
 	EXT:
 		log.InfoF("channel %v stopping handler", c.channel)
 	}()
 }
 
+// ack acknowledges a message, and deletes it from the topic once every channel of the topic has.
+func (c *Channel) ack(ctx context.Context, id string) {
+	pipe := thdredis.Pipeline()
+	pipe.XAck(ctx, c.topic, c.channel, id)
+	groups := pipe.XInfoGroups(ctx, c.topic)
+
+	if _, err := pipe.Exec(ctx); err != nil {
+		log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, id, err)
+		return
+	}
+
+	for _, g := range groups.Val() {
+		if g.Name == c.channel {
+			continue
+		}
+		if idLess(g.LastDeliveredID, id) {
+			return // not read yet
+		}
+		if g.Pending > 0 {
+			pending, err := thdredis.GetClient().XPendingExt(ctx, &redis.XPendingExtArgs{
+				Stream: c.topic, Group: g.Name, Start: id, End: id, Count: 1,
+			}).Result()
+			if err != nil || len(pending) > 0 {
+				return // not acknowledged yet
+			}
+		}
+	}
+
+	if err := thdredis.XDel(ctx, c.topic, id).Err(); err != nil {
+		log.WarnF("topic %v channel %v id %v delete failed: %v", c.topic, c.channel, id, err)
+	}
+}
+
+// idLess reports whether stream id a comes before b.
+func idLess(a, b string) bool {
+	var ams, aseq, bms, bseq uint64
+	fmt.Sscanf(a, "%d-%d", &ams, &aseq)
+	fmt.Sscanf(b, "%d-%d", &bms, &bseq)
+	return ams < bms || (ams == bms && aseq < bseq)
+}
+
 func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
-- 
2.43.0


From 65afed2c59d4256985ffc73a63713f1e851fda78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:54 +0000
Subject: [PATCH 19/52] fix: a subscription does not spin while the store
 fails, and survives the expiry of its topic

---
 lib/pubsub/ps_channel.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 0fcbc74..8f855e6 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -3,6 +3,7 @@ package pubsub
 import (
 	"context"
 	"fmt"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -47,13 +48,21 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 func (c *Channel) loop() {
 	go func() {
 		for {
-			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
+			msgs, err := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
 				Group:    c.channel,
 				Consumer: c.consumer,
 				Streams:  []string{c.topic, ">"},
 				Block:    10 * time.Millisecond,
 				Count:    10,
-			}).Val()
+			}).Result()
+
+			if err != nil && err != redis.Nil {
+				if strings.HasPrefix(err.Error(), "NOGROUP") {
+					// The topic expired or was deleted; join it again once it is published to
+					thdredis.XGroupCreate(context.TODO(), c.topic, c.channel, ReadModeBeginning)
+				}
+				time.Sleep(10 * time.Millisecond)
+			}
 
 			for _, v := range msgs {
 				for _, msg := range v.Messages {
-- 
2.43.0


From a3058b1c60e1971e432658bef5d80e3334e435d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 20/52] fix: an actor that exits leaves later messages of its
 subscriptions to the next subscriber

---
 core/actor/actor_runtime_impl.go | 15 +++++++++++++++
 lib/pubsub/ps_channel.go         | 33 ++++++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 03dd8e0..23f3361 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -39,6 +39,8 @@ type Runtime struct {
 	chainsMu     sync.RWMutex
 	recovery     RecoveryFunc
 
+	subs []*pubsub.Channel // subscriptions, guarded by chainsMu
+
 	timers    map[core.ITimer]struct{}
 	timerChan chan core.ITimer
 	//timerWg   sync.WaitGroup // 用于等待所有 timer goroutine 退出
@@ -182,6 +184,10 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 
 	ch.Arrived(a.q)
 
+	a.chainsMu.Lock()
+	a.subs = append(a.subs, ch)
+	a.chainsMu.Unlock()
+
 	return nil
 }
 
@@ -406,6 +412,15 @@ func (a *Runtime) Exit() {
 
 func (a *Runtime) exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
+
+	// Messages that were read from a subscription are handled, later ones are left for the next subscriber
+	a.chainsMu.RLock()
+	subs := a.subs
+	a.chainsMu.RUnlock()
+	for _, ch := range subs {
+		ch.Stop()
+	}
+
 	close(a.shutdownCh) // 发送关闭信号
 	<-a.closeCh         // 等待所有消息处理完毕
 
diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 8f855e6..d19b81d 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -23,9 +24,14 @@ type Channel struct {
 	consumer string // group consumer
 
 	exitFlag int32
+	loopDone chan struct{}  // closed when no more messages are read
+	handlers sync.WaitGroup // the running handlers
 	msgCh    *unbounded.Unbounded
 }
 
+// stopMark follows the last message of a channel that stops.
+type stopMark struct{}
+
 func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Channel, error) {
 
 	c := &Channel{
@@ -33,6 +39,7 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 		channel:  channel,
 		consumer: uuid.New().String(),
 		msgCh:    unbounded.NewUnbounded(),
+		loopDone: make(chan struct{}),
 	}
 
 	// 从头部开始消费，还是从最新的消息开始 (默认从尾部开始进行消费，只处理新消息
@@ -47,7 +54,9 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 
 func (c *Channel) loop() {
 	go func() {
-		for {
+		defer close(c.loopDone)
+
+		for atomic.LoadInt32(&c.exitFlag) == 0 {
 			msgs, err := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
 				Group:    c.channel,
 				Consumer: c.consumer,
@@ -69,11 +78,6 @@ func (c *Channel) loop() {
 
 					val := msg.Values["msg"].(string)
 
-					if atomic.LoadInt32(&c.exitFlag) == 1 {
-						log.WarnF("cannot write to the exiting channel %v", c.channel)
-						return
-					}
-
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
@@ -90,7 +94,10 @@ func (c *Channel) loop() {
 }
 
 func (c *Channel) addHandlers(queue *mpsc.Queue) {
+	c.handlers.Add(1)
+
 	go func() {
+		defer c.handlers.Done()
 
 		for {
 			m, ok := <-c.msgCh.Get()
@@ -99,6 +106,11 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 			}
 			c.msgCh.Load()
 
+			if _, stop := m.(stopMark); stop {
+				c.msgCh.Put(m) // for the other handlers
+				goto EXT
+			}
+
 			recvmsg, ok := m.(*router.Message)
 			if !ok {
 				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
@@ -163,6 +175,15 @@ func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
 
+// Stop ends the reading of messages, and waits until those already read have been passed to the handlers.
+// The channel stays in the store: what is published from now on waits for its next subscriber.
+func (c *Channel) Stop() {
+	atomic.StoreInt32(&c.exitFlag, 1)
+	<-c.loopDone
+	c.msgCh.Put(stopMark{})
+	c.handlers.Wait()
+}
+
 func (c *Channel) Close() error {
 
 	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()
-- 
2.43.0


From a7bd6291363df4357f72743a0ed7fe6f832f2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 21/52] fix: the callbacks of a reentrant call run on their
 actor, not beside its handlers

---
 core/actor/actor_reenter_impl.go | 29 +++++++++++++++--------------
 core/actor/actor_runtime_impl.go |  2 +-
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index 57e5761..82c012e 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -21,43 +21,44 @@ func NewFuture() *Future {
 	}
 }
 
+// Then runs the callback where the future is completed, or at once if it already is.
 func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
-	f.mutex.Lock()
-	defer f.mutex.Unlock()
+	newFuture := NewFuture()
 
+	f.mutex.Lock()
 	if f.IsCompleted() {
-		chained := NewFuture()
-		go func() {
-			callback(f.result)
-			chained.Complete(f.result)
-		}()
-		return chained
+		f.mutex.Unlock()
+		callback(f.result)
+		newFuture.Complete(f.result)
+		return newFuture
 	}
 
-	newFuture := NewFuture()
 	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
 		callback(mw)
 		newFuture.Complete(mw)
 	})
+	f.mutex.Unlock()
 
 	return newFuture
 }
 
 func (f *Future) Complete(result *msg.Wrapper) {
 	f.mutex.Lock()
-	defer f.mutex.Unlock()
-
 	if f.IsCompleted() {
+		f.mutex.Unlock()
 		return // 已经完成
 	}
 
 	f.result = result
 	close(f.done)
 
-	for _, callback := range f.callbacks {
-		go callback(f.result)
-	}
+	callbacks := f.callbacks
 	f.callbacks = nil
+	f.mutex.Unlock()
+
+	for _, callback := range callbacks {
+		callback(f.result)
+	}
 }
 
 func (f *Future) IsCompleted() bool {
diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 23f3361..26ade48 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -258,7 +258,7 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 				Err: rmw.Ctx.Err(),
 			}
 
-			reenterFuture.Complete(errWrapper)
+			callFuture.Complete(errWrapper)
 		case <-callFuture.done:
 		}
 	}()
-- 
2.43.0


From bbce079673b3b5edcc4454993984e799501162b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 22/52] fix: an id whose removal failed can be registered again

---
 core/addressbook/addressbook_impl.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index ec48808..19cd0da 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -100,12 +100,12 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("actor id or type is empty")
 	}
 
+	// the actor no longer runs here, whether its record can be removed or not
+	defer ab.forget(id)
+
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
-		if err == redis.Nil {
-			ab.forget(id)
-		}
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
@@ -121,11 +121,8 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy),
 		makeNodeKey(info.Node),
 	}, id, addrJSON, fmt.Sprintf("actor:%s", info.ActorTy), -weight).Int()
-	if err == nil {
-		ab.forget(id) // try delete
-		if removed == 0 {
-			err = fmt.Errorf("address not found for id: %s", id)
-		}
+	if err == nil && removed == 0 {
+		err = fmt.Errorf("address not found for id: %s", id)
 	}
 
 	return err
-- 
2.43.0


From bdfed83e572a4986f69aee2504274c33a0928f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 23/52] fix: a registration whose reply is lost leaves no
 record behind, and one that is repeated counts its weight once

---
 core/addressbook/addressbook_impl.go | 37 +++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 19cd0da..fdf2860 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -71,21 +71,21 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 		Port: ab.Port},
 	)
 
-	// execute multiple redis operations using pipeline
-	pipe := trdredis.Pipeline()
-	pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)
-	pipe.SAdd(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty), addrJSON)
-
-	// Add node info to a separate set
-	pipe.HSet(ctx, def.RedisAddressbookNodesField, ab.NodeID, nodeInfoJSON)
-
-	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", ty), int64(weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
-
-	_, err := pipe.Exec(ctx)
+	// execute multiple redis operations atomically; a record that is already there is not counted again
+	err := registerScript.Run(ctx, trdredis.GetClient(), []string{
+		def.RedisAddressbookIDField,
+		fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty),
+		def.RedisAddressbookNodesField, // Add node info to a separate set
+		makeNodeKey(ab.NodeID),         // 更新节点记录
+	}, id, addrJSON, ab.NodeID, nodeInfoJSON, fmt.Sprintf("actor:%s", ty), weight).Err()
 	if err != nil {
-		return fmt.Errorf("redis pipeline exec err %v", err.Error())
+		// the record may be there although the reply is not
+		unregisterScript.Run(ctx, trdredis.GetClient(), []string{
+			def.RedisAddressbookIDField,
+			fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty),
+			makeNodeKey(ab.NodeID),
+		}, id, addrJSON, fmt.Sprintf("actor:%s", ty), -weight)
+		return fmt.Errorf("redis script exec err %v", err.Error())
 	}
 
 	ab.Lock()
@@ -134,6 +134,15 @@ func (ab *AddressBook) forget(id string) {
 	ab.Unlock()
 }
 
+var registerScript = redis.NewScript(`
+redis.call("hset", KEYS[1], ARGV[1], ARGV[2])
+redis.call("hset", KEYS[3], ARGV[3], ARGV[4])
+if redis.call("sadd", KEYS[2], ARGV[2]) == 1 then
+	redis.call("hincrby", KEYS[4], ARGV[5], ARGV[6])
+	redis.call("hincrby", KEYS[4], "total_weight", ARGV[6])
+end
+return 1`)
+
 var unregisterScript = redis.NewScript(`
 if redis.call("hget", KEYS[1], ARGV[1]) ~= ARGV[2] then
 	return 0
-- 
2.43.0


From a808802ef9e2fc115d440ff161e4eaec7d0fd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 24/52] fix: the least loaded node is chosen by its own weight

---
 core/addressbook/addressbook_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index fdf2860..371c4eb 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -275,7 +275,9 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	nodeIDs := make([]string, 0, len(nodeInfoMap)) // in the order of the replies
 	for nodeID := range nodeInfoMap {
+		nodeIDs = append(nodeIDs, nodeID)
 		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
@@ -285,7 +287,8 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	}
 
 	i := 0
-	for nodeID, nodeInfoJSON := range nodeInfoMap {
+	for _, nodeID := range nodeIDs {
+		nodeInfoJSON := nodeInfoMap[nodeID]
 		if i >= len(cmders) {
 			break
 		}
-- 
2.43.0


From bf20e0bc4939005930c53201b4118b17a3dd5e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 25/52] fix: clearing a node is all or nothing

---
 core/addressbook/addressbook_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 371c4eb..0211e72 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -354,7 +354,7 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to get actor infos: %w", err)
 	}
 
-	pipe := trdredis.Pipeline()
+	pipe := trdredis.GetClient().TxPipeline() // all or nothing, the weights have to match the records
 
 	// 删除该节点的所有 actor 信息
 	for actorType := range actorInfos {
-- 
2.43.0


From 0feaac92ebcd52d9767bf6628bb324f0e437e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 26/52] fix: the next entity version is the smallest greater
 one, and versions may be registered concurrently

---
 core/entity.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/entity.go b/core/entity.go
index 02be84d..7c250c9 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -35,6 +35,9 @@ var verRMu sync.RWMutex
 
 // RegisterVersionStrategy 注册entity版本变更执行的策略函数
 func RegisterVersionStrategy(s VerStrategy) {
+	verRMu.Lock()
+	defer verRMu.Unlock()
+
 	verList = append(verList, s)
 }
 
@@ -56,14 +59,15 @@ func GetNextVersion(ver int) int {
 	verRMu.RLock()
 	defer verRMu.RUnlock()
 
+	// 没有更高的版本时保持不变
+	next := ver
 	for _, v := range verList {
-		if v.Version > ver {
-			return v.Version
+		if v.Version > ver && (next == ver || v.Version < next) {
+			next = v.Version
 		}
 	}
 
-	// 保持不变
-	return ver
+	return next
 }
 
 type VerStrategy struct {
-- 
2.43.0


From 3272bad9383121cbfc39ef6a0eb55baedebb1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 27/52] fix: no token is made for an id that it could not carry

---
 lib/token/token.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/token/token.go b/lib/token/token.go
index 177e5cd..ac7d55d 100644
--- a/lib/token/token.go
+++ b/lib/token/token.go
@@ -2,6 +2,7 @@ package token
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/golang-jwt/jwt"
 )
@@ -31,6 +32,10 @@ func Create(entityID string) (string, error) {
 	if len(entityID) <= 0 {
 		return "", fmt.Errorf("createToken error entityID is empty")
 	}
+	// claims 以 json 编码, 无效的 utf8 会被替换
+	if !utf8.ValidString(entityID) {
+		return "", fmt.Errorf("createToken error entityID %q is not valid utf8", entityID)
+	}
 
 	claims := Claims{
 		EntityID: entityID,
-- 
2.43.0


From fa08ff2c053fbf43cd71c42460f1045b81846d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 28/52] fix: custom fields of type int8 and uint8 can be read

---
 router/msg/msg_custom_map.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..f5ccb99 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -115,6 +115,14 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
@@ -191,6 +199,14 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
-- 
2.43.0


From 80f85d85ba26e3a7b550fd366def83930fea80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 29/52] fix: the serializers a message is built with are used
 to write and to read it

---
 router/msg/msg.go            |  4 ++++
 router/msg/msg_custom_map.go | 13 ++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index eca22b1..950ab3d 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -52,6 +52,10 @@ func NewBuilder(ctx context.Context, opts ...WrapperOption) *MsgBuilder {
 		CustomObjSerialize: &CustomObjectSerialize{},
 	}
 
+	for _, opt := range opts {
+		opt(&parm)
+	}
+
 	if wc, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
 		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
 	} else {
diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f5ccb99..be50670 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -1,7 +1,6 @@
 package msg
 
 import (
-	"encoding/json"
 	fmt "fmt"
 
 	"github.com/pojol/braid/lib/log"
@@ -72,6 +71,14 @@ func (b *MsgBuilder) WithResCustomFieldsMap(data map[string]any) *MsgBuilder {
 	return b
 }
 
+// mapSerialize is the serializer the message was built with, json for one that was not built
+func (mw *Wrapper) mapSerialize() ICustomSerialize {
+	if mw.parm.CustomMapSerialize != nil {
+		return mw.parm.CustomMapSerialize
+	}
+	return &CustomJsonSerialize{}
+}
+
 // GetReqCustomMap gets the custom fields map from the message
 //
 // Note: The custom map is serialized using JSON, all value types need to be carefully converted
@@ -81,7 +88,7 @@ func (mw *Wrapper) GetReqCustomMap() (map[string]any, error) {
 		return nil, fmt.Errorf("empty request body")
 	}
 	var data map[string]any
-	err := json.Unmarshal(mw.Req.Header.Custom, &data)
+	err := mw.mapSerialize().Decode(mw.Req.Header.Custom, &data)
 	return data, err
 }
 
@@ -166,7 +173,7 @@ func (mw *Wrapper) GetResCustomMap() (map[string]any, error) {
 		return nil, fmt.Errorf("empty resuest body")
 	}
 	var data map[string]any
-	err := json.Unmarshal(mw.Res.Header.Custom, &data)
+	err := mw.mapSerialize().Decode(mw.Res.Header.Custom, &data)
 	return data, err
 }
 
-- 
2.43.0


From 14df1f0a9422ac2bd01b1e2800c9d48251df1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 30/52] fix: WriteJSON leaves nothing of the longer file it
 overwrites

---
 utils/file/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file/file.go b/utils/file/file.go
index 022f103..b216e67 100644
--- a/utils/file/file.go
+++ b/utils/file/file.go
@@ -74,7 +74,7 @@ func SaveFile(dat []byte, fileName string) error {
 
 // WriteJSON 保存json文件
 func WriteJSON(path string, jsonByte []byte) {
-	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0755)
+	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 	if err != nil {
 		log.Fatal(err)
 		return
-- 
2.43.0


From ce85fda73a5b40a3dd6adfedc9aef1fc40d22781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:19 +0000
Subject: [PATCH 31/52] fix: GetCmdsByteSlice reports the command that failed

---
 3rd/redis/client_utils.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/3rd/redis/client_utils.go b/3rd/redis/client_utils.go
index 171c996..c6a0797 100644
--- a/3rd/redis/client_utils.go
+++ b/3rd/redis/client_utils.go
@@ -10,17 +10,15 @@ import (
 
 func GetCmdsByteSlice(cmds []redis.Cmder) ([][]byte, error) {
 	var bts [][]byte
-	var err error
 	for _, cmder := range cmds {
 		cmd := cmder.(*redis.StringCmd)
 		bytes, err := cmd.Bytes()
 		if err != nil {
-			goto EXT
+			return bts, err
 		}
 		bts = append(bts, bytes)
 	}
-EXT:
-	return bts, err
+	return bts, nil
 }
 
 type spanTag struct {
-- 
2.43.0


From 33c8702289656d86d3c49b6810b98e3ccb359466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 32/52] fix: a tick task runs in one loop, whether it panics,
 stops before it is due or starts again

---
 lib/timer/timer.go      |  9 +++++--
 lib/timer/timer_tick.go | 54 +++++++++++++++++++++++++++--------------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 08a6552..f3266a9 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -47,7 +47,8 @@ type TimerInfo struct {
 	isRun       bool
 	taskService *TimerService
 	mutex       sync.RWMutex
-	TimeTicker  *time.Ticker
+	quit        chan struct{} // closed by stop
+	runMutex    sync.Mutex    // held during a run
 	TaskType    string
 	handler     TimerHandleFunc
 	context     *TimerContext
@@ -60,8 +61,12 @@ func (task *TimerInfo) stop() {
 	if !task.isRun {
 		return
 	}
+
+	task.mutex.Lock()
+	defer task.mutex.Unlock()
+
 	if task.State == Timer_state_run {
-		task.TimeTicker.Stop()
+		close(task.quit)
 		task.State = Timer_state_stop
 	}
 }
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index e244eb8..16e1426 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -21,7 +21,8 @@ func (tt *TimerTask) start() {
 
 	if tt.State == Timer_state_init || tt.State == Timer_state_stop {
 		tt.State = Timer_state_run
-		startTickTask(tt)
+		tt.quit = make(chan struct{})
+		startTickTask(tt, tt.quit)
 	}
 }
 
@@ -47,16 +48,24 @@ func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, hand
 	return task, nil
 }
 
-func startTickTask(task *TimerTask) {
+// startTickTask runs the task in a goroutine of its own until quit is closed
+func startTickTask(task *TimerTask, quit chan struct{}) {
 	handler := func() {
+		// a stopped loop may still be in its last run when the task is started again
+		task.runMutex.Lock()
+		defer task.runMutex.Unlock()
+
+		select {
+		case <-quit:
+			return
+		default:
+		}
+
 		defer func() {
 			if err := recover(); err != nil {
-				//task.taskService.Logger().Debug(task.TaskID, " loop handler recover error => ", err)
-				if task.taskService.ExceptionHandler != nil {
+				if task.taskService != nil && task.taskService.ExceptionHandler != nil {
 					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))
 				}
-				//goroutine panic, restart cron task
-				startTickTask(task)
 			}
 		}()
 		if task.taskService != nil && task.taskService.OnBeforeHandler != nil {
@@ -76,19 +85,28 @@ func startTickTask(task *TimerTask) {
 			task.taskService.OnEndHandler(task.Context())
 		}
 	}
-	dofunc := func() {
-		task.TimeTicker = time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
-		handler()
+
+	go func() {
+		//等待设定的延时毫秒
+		if task.DueTime > 0 {
+			due := time.NewTimer(time.Duration(task.DueTime) * time.Millisecond)
+			defer due.Stop()
+			select {
+			case <-due.C:
+			case <-quit:
+				return
+			}
+		}
+
+		ticker := time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		defer ticker.Stop()
 		for {
-			<-task.TimeTicker.C
 			handler()
+			select {
+			case <-ticker.C:
+			case <-quit:
+				return
+			}
 		}
-	}
-	//等待设定的延时毫秒
-	if task.DueTime > 0 {
-		go time.AfterFunc(time.Duration(task.DueTime)*time.Millisecond, dofunc)
-	} else {
-		go dofunc()
-	}
-
+	}()
 }
-- 
2.43.0


From fd83f82a142001eb549093810af4d25018646f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:43 +0000
Subject: [PATCH 33/52] fix: the timer service may be used by several
 goroutines

---
 lib/timer/timer.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index f3266a9..8c2af8b 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -127,12 +127,18 @@ func Init() *TimerService {
 }
 
 func (ts *TimerService) StartAllTask() {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
 	for _, v := range ts.taskMap {
 		v.start()
 	}
 }
 
 func (ts *TimerService) StopAllTask() {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
 	for _, v := range ts.taskMap {
 		v.stop()
 	}
@@ -160,23 +166,29 @@ func (service *TimerService) RemoveTask(taskID string) {
 	service.taskMutex.Unlock()
 }
 
+func (service *TimerService) getTask(taskID string) (Timer, bool) {
+	service.taskMutex.RLock()
+	defer service.taskMutex.RUnlock()
+
+	t, ok := service.taskMap[taskID]
+	return t, ok
+}
+
 func (ts *TimerService) StopTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.getTask(taskID); ok {
+		t.stop()
 	}
-	ts.taskMap[taskID].stop()
 }
 
 func (ts *TimerService) StartTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.getTask(taskID); ok {
+		t.start()
 	}
-	ts.taskMap[taskID].start()
 }
 
 func (ts *TimerService) Stop(name string) error {
 
-	if v, ok := ts.taskMap[name]; ok {
+	if v, ok := ts.getTask(name); ok {
 		v.stop()
 		return nil
 	}
-- 
2.43.0


From dbaa123004ef00e8a6a8749822cbb1a6b88bbbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:44 +0000
Subject: [PATCH 34/52] fix: a tick task without a positive interval is refused

---
 lib/timer/timer_tick.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index 16e1426..40d5357 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -32,6 +32,10 @@ func (tt *TimerTask) runOnce() error {
 }
 
 func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, handler TimerHandleFunc, taskData interface{}) (Timer, error) {
+	if interval <= 0 {
+		return nil, fmt.Errorf("timer task %v interval %v is not positive", taskID, interval)
+	}
+
 	context := new(TimerContext)
 	context.TimerID = taskID
 	context.TimerData = taskData
-- 
2.43.0


From 373e19da7e3d7918c7d6652c45772e5689d331b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 35/52] fix: a closed channel takes no more messages away

---
 lib/pubsub/ps_channel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index d19b81d..456a6a5 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -184,7 +184,10 @@ func (c *Channel) Stop() {
 	c.handlers.Wait()
 }
 
+// Close stops the channel and takes its consumer out of the store, and the channel itself when this was the
+// last one.
 func (c *Channel) Close() error {
+	c.Stop()
 
 	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()
 	if err != nil {
-- 
2.43.0


From 64ae1eeeb7054338651a4d2d9eacbd2a68db7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 36/52] fix: Close of a channel reports that its group could
 not be removed

---
 lib/pubsub/ps_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 456a6a5..9ddd800 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -205,6 +205,7 @@ func (c *Channel) Close() error {
 		_, err := thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
 		if err != nil {
 			log.WarnF("braid.pubsub topic %v channel %v redis channel destory err %v", c.topic, c.channel, err.Error())
+			return err
 		}
 	}
 
-- 
2.43.0


From e4fe5a1af79f6463b761e9761dc509b1a641ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 37/52] fix: the options of an actor builder are its own

---
 core/actor/actor_build_impl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..0f8ee57 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,8 +31,15 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
-	p.Options[key] = value
-	p.optionsMutex.Unlock()
+	defer p.optionsMutex.Unlock()
+
+	// The builders of a type share the options of its constructor
+	options := make(map[string]string, len(p.Options)+1)
+	for k, v := range p.Options {
+		options[k] = v
+	}
+	options[key] = value
+	p.Options = options
 	return p
 }
 
-- 
2.43.0


From 28ad8c8d50635c6d256a48f8a9c3ec478b1facd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:37 +0000
Subject: [PATCH 38/52] fix: WithReqHeader keeps the timestamp

---
 router/msg/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index 950ab3d..3812747 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -97,6 +97,7 @@ func (b *MsgBuilder) WithReqHeader(h *router.Header) *MsgBuilder {
 		b.wrapper.Req.Header.PrevActorType = h.PrevActorType
 		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
 		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
+		b.wrapper.Req.Header.Timestamp = h.Timestamp
 		b.wrapper.Req.Header.Custom = h.Custom
 	} else {
 		// If either header is nil, directly set the header
-- 
2.43.0


From fff6f23dec6228081710c20879dcbe009ba7dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:41 +0000
Subject: [PATCH 39/52] fix: CallWait refuses call options of another type

---
 lib/grpc/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..b1ea82c 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -147,7 +147,7 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 		for _, v := range opts {
 			callopt, ok := v.(grpc.CallOption)
 			if !ok {
-				fmt.Printf("[braid.client] call option type mismatch")
+				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
 			}
 			grpcopts = append(grpcopts, callopt)
 		}
-- 
2.43.0


From 1c1395806777920637ef77703132e59874ae7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:24 +0000
Subject: [PATCH 40/52] fix: dropStale removes the record of the actor's own
 type

---
 core/node/system_impl.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7a81503..e83fffb 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -318,7 +318,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		sys.dropStale(mw.Ctx, info.ActorId, actorType, event)
+		sys.dropStale(mw.Ctx, info, actorType, event)
 
 		return ErrSelfCall
 	}
@@ -328,7 +328,12 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 // dropStale removes the record of an actor that this node is said to run and does not.
-func (sys *NormalSystem) dropStale(ctx context.Context, id, actorType, event string) {
+func (sys *NormalSystem) dropStale(ctx context.Context, info core.AddressInfo, actorType, event string) {
+	id := info.ActorId
+	if info.ActorTy != "" {
+		actorType = info.ActorTy // the caller may have named another one
+	}
+
 	sys.recordMu.Lock()
 	defer sys.recordMu.Unlock()
 
@@ -501,7 +506,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		sys.dropStale(mw.Ctx, info.ActorId, actorType, event)
+		sys.dropStale(mw.Ctx, info, actorType, event)
 		return ErrSelfCall
 	}
 
-- 
2.43.0


From f494069ba82152a0d201f6b1624813e271a9e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:24 +0000
Subject: [PATCH 41/52] fix: Unregister updates the weight of the actor's own
 type

---
 core/node/system_impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index e83fffb..5617fc2 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -204,6 +204,7 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	sys.RUnlock()
 
 	if exists {
+		ty = actor.Type() // the caller may have named another one
 		// Call Exit on the actor
 		actor.Exit()
 	}
-- 
2.43.0


From a53e291f629916e9b94a37306b8cea3d23ee1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:24 +0000
Subject: [PATCH 42/52] fix: a panic while an actor is built leaves no address
 record

---
 core/node/system_impl.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 5617fc2..7e84f47 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -109,9 +109,12 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	if err := sys.reserve(builder); err != nil {
 		return nil, err
 	}
-	entered := false
+	recorded, entered := false, false
 	defer func() {
 		if !entered {
+			if recorded { // nothing runs under the record: beyond the limit, or the constructor or Init panicked
+				sys.addressbook.Unregister(ctx, builder.GetID(), builder.GetWeight())
+			}
 			sys.Lock()
 			delete(sys.registering, builder.GetID())
 			sys.Unlock()
@@ -134,12 +137,12 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	if err != nil {
 		return nil, err
 	}
+	recorded = true
 
 	// Another node may have registered since the count was read, recheck with our own record counted
 	if limit := builder.GetGlobalQuantityLimit(); limit != 0 {
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil || int(cnt) > limit {
-			sys.addressbook.Unregister(ctx, builder.GetID(), builder.GetWeight())
 			return nil, fmt.Errorf("braid.system actor %v global quantity limit current count %v err %v", builder.GetType(), cnt, err)
 		}
 	}
-- 
2.43.0


From 01afaebeb9fa190c3a05af12311f4977645f8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 43/52] fix: GetLowWeightNodeForActor fails when a listed node
 has no weight

---
 core/addressbook/addressbook_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 0211e72..e50bdb0 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -282,7 +282,7 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	}
 
 	cmders, err := pipe.Exec(ctx)
-	if err != nil {
+	if err != nil && err != redis.Nil { // a node without weight is skipped below
 		return core.AddressInfo{}, fmt.Errorf("pipeline execution failed: %v", err)
 	}
 
-- 
2.43.0


From 53908ee7bfcc8a6c380e3f42e93a72cf08b7e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:32 +0000
Subject: [PATCH 44/52] fix: a timer's NextTrigger tells when it fires next

---
 core/actor/actor_runtime_impl.go |  5 +++--
 core/actor/actor_timer.go        | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 26ade48..13eb50a 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -131,7 +131,7 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 
 		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
 		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
+			info.ticked(<-time.After(info.dueTime))
 			a.timerChan <- info
 		}
 
@@ -144,7 +144,8 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 
 		for {
 			select {
-			case <-info.ticker.C:
+			case at := <-info.ticker.C:
+				info.ticked(at)
 				a.timerChan <- info
 			case <-a.shutdownCh:
 				return
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 4d58d3d..f54171f 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -32,12 +32,23 @@ func (t *TimerInfo) start() bool {
 		return false
 	}
 	t.ticker = time.NewTicker(t.interval)
+	t.nextTick.Store(time.Now().Add(t.interval))
 	if !t.active.Load() {
 		t.ticker.Stop()
 	}
 	return true
 }
 
+// ticked notes that the timer fired at the given time, unless it was reset since.
+func (t *TimerInfo) ticked(at time.Time) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
+	if next := at.Add(t.interval); next.After(t.NextTrigger()) {
+		t.nextTick.Store(next)
+	}
+}
+
 func (t *TimerInfo) Stop() bool {
 	t.mu.Lock()
 	defer t.mu.Unlock()
@@ -72,7 +83,9 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	}
 
 	t.active.Store(true)
-	t.nextTick.Store(time.Now().Add(t.interval))
+	if t.ticker != nil || t.dueTime <= 0 { // otherwise it still fires at its due time
+		t.nextTick.Store(time.Now().Add(t.interval))
+	}
 
 	if t.ticker != nil {
 		t.ticker.Reset(t.interval)
-- 
2.43.0


From d632ccc33cdea5f63755f6b675f4c3ac4c402492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:32 +0000
Subject: [PATCH 45/52] fix: the weight of an actor registered under another
 type is given back

---
 core/node/system_impl.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7e84f47..8aeac9d 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -25,6 +25,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	weights     map[string]int    // id -> weight the actor was recorded with
 	registering map[string]string // id -> type of the actors being registered
 	recordMu    sync.Mutex        // held while records of actors that are not running are removed
 	client      *grpc.Client
@@ -51,6 +52,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		weights:     make(map[string]int),
 		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
@@ -158,6 +160,7 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 
 	sys.Lock()
 	sys.actoridmap[builder.GetID()] = actor
+	sys.weights[builder.GetID()] = builder.GetWeight()
 	delete(sys.registering, builder.GetID())
 	entered = true
 	sys.Unlock()
@@ -224,15 +227,20 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 		return nil
 	}
 	delete(sys.actoridmap, id)
+	weight, known := sys.weights[id]
+	delete(sys.weights, id)
 	sys.Unlock()
 
 	// Unregister from the address book
-	ac := sys.factory.Get(ty)
-	if ac == nil {
-		return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
+	if !known { // not an actor of this node
+		ac := sys.factory.Get(ty)
+		if ac == nil {
+			return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
+		}
+		weight = ac.Weight
 	}
 
-	err := sys.addressbook.Unregister(context.TODO(), id, sys.factory.Get(ty).Weight)
+	err := sys.addressbook.Unregister(context.TODO(), id, weight)
 	if err != nil {
 		// Log the error, but don't return it as the actor has already been removed locally
 		log.WarnF("braid.system unregister actor id %s failed from address book err: %v", id, err)
-- 
2.43.0


From 5e98b0b27ab6e36d80e3e173c55d9e4c9f17a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 46/52] fix: the caller options of a logger take effect

---
 lib/log/options.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/log/options.go b/lib/log/options.go
index b6a23c5..4917ffa 100644
--- a/lib/log/options.go
+++ b/lib/log/options.go
@@ -247,13 +247,6 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 		}
 	}
 
-	core := zapcore.NewCore(
-		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
-		ws,                                  // 输出方式
-		zap.NewAtomicLevelAt(options.Level), // 日志级别
-	)
-
-	var logger *zap.Logger
 	if options.Caller {
 		if options.CallerFunc {
 			options.EncoderConf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
@@ -265,6 +258,17 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 			}
 		}
 		options.EncoderConf.FunctionKey = zapcore.OmitKey
+	}
+
+	// The encoder keeps a copy of its configuration
+	core := zapcore.NewCore(
+		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
+		ws,                                  // 输出方式
+		zap.NewAtomicLevelAt(options.Level), // 日志级别
+	)
+
+	var logger *zap.Logger
+	if options.Caller {
 		logger = zap.New(core, zap.AddCallerSkip(options.CallerSkip), zap.AddCaller())
 	} else {
 		logger = zap.New(core)
-- 
2.43.0


From 9d875a87952674067d44560e07ce4eb790c09687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 47/52] fix: mongo: several databases of one server can be
 connected

---
 3rd/mgo/mgr_opts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/mgo/mgr_opts.go b/3rd/mgo/mgr_opts.go
index ed3752b..0ea81e3 100644
--- a/3rd/mgo/mgr_opts.go
+++ b/3rd/mgo/mgr_opts.go
@@ -29,9 +29,9 @@ func WithTracer(trc tracer.ITracer) Option {
 	}
 }
 
-func (p *Parm) _checkRepeat(addr string) bool {
+func (p *Parm) _checkRepeat(info ConnInfo) bool {
 	for _, c := range p.conns {
-		if c.Addr == addr {
+		if c == info { // a server may hold several databases
 			return true
 		}
 	}
@@ -53,7 +53,7 @@ func WithConnPoolSize(size uint64) Option {
 
 func AppendConn(info ConnInfo) Option {
 	return func(p *Parm) {
-		if !p._checkRepeat(info.Addr) {
+		if !p._checkRepeat(info) {
 			p.conns = append(p.conns, info)
 		}
 	}
-- 
2.43.0


From c430760cfe6dd2329b51fc694943c7493e5fd74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:33 +0000
Subject: [PATCH 48/52] fix: mongo: operations are traced with the manager's
 tracer

---
 3rd/mgo/mgr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rd/mgo/mgr.go b/3rd/mgo/mgr.go
index ac85943..1a83cf3 100644
--- a/3rd/mgo/mgr.go
+++ b/3rd/mgo/mgr.go
@@ -73,6 +73,7 @@ func Collection(db string, collection string) *LCollection {
 	}
 
 	return &LCollection{
+		trc:  mgrPtr.trc,
 		coll: cli.cli.Database(db).Collection(collection),
 	}
 }
-- 
2.43.0


From cdd6a00cd0b85397a0cf8da2f05f419a5c4ef3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 49/52] fix: a tick task that is removed, or replaced by one of
 the same name, is stopped

---
 lib/timer/timer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 8c2af8b..781f3a1 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -156,14 +156,24 @@ func (ts *TimerService) NewTickTask(taskID string, isRun bool, dueTime int64, in
 
 func (service *TimerService) AddTask(t Timer) {
 	service.taskMutex.Lock()
+	old, ok := service.taskMap[t.TimerID()]
 	service.taskMap[t.TimerID()] = t
 	service.taskMutex.Unlock()
+
+	if ok && old != t { // nobody else could stop it
+		old.stop()
+	}
 }
 
 func (service *TimerService) RemoveTask(taskID string) {
 	service.taskMutex.Lock()
+	old, ok := service.taskMap[taskID]
 	delete(service.taskMap, taskID)
 	service.taskMutex.Unlock()
+
+	if ok { // nobody else could stop it
+		old.stop()
+	}
 }
 
 func (service *TimerService) getTask(taskID string) (Timer, bool) {
-- 
2.43.0


From 8fff0c55bee7f9d3fbeb5d2dea55ed8a75d49fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:53 +0000
Subject: [PATCH 50/52] fix: one connection per address, the one that lost a
 race of first calls or was listed twice is closed

---
 lib/grpc/client.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index b1ea82c..1486338 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -101,13 +101,24 @@ func (c *Client) Init() error {
 		if err != nil {
 			fmt.Printf("[braid.client] new grpc conn err %s", err.Error())
 		} else {
-			c.connmap.Store(addr, conn)
+			c.keep(addr, conn)
 		}
 	}
 
 	return nil
 }
 
+// keep makes conn the connection of addr, unless there is one already
+func (c *Client) keep(addr string, conn *grpc.ClientConn) *grpc.ClientConn {
+	old, ok := c.connmap.LoadOrStore(addr, conn)
+	if !ok {
+		return conn
+	}
+
+	conn.Close()
+	return old.(*grpc.ClientConn)
+}
+
 func (c *Client) getConn(address string) (*grpc.ClientConn, error) {
 	mc, ok := c.connmap.Load(address)
 	if !ok {
@@ -140,7 +151,7 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			return err
 		}
 
-		c.connmap.Store(addr, conn)
+		conn = c.keep(addr, conn)
 	}
 
 	if len(opts) != 0 {
-- 
2.43.0


From 56540eb8a40ac721c8d14f6220ac176fb3cb744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:04 +0000
Subject: [PATCH 51/52] fix: errcode: Cause finds a code wrapped with %w

---
 lib/errcode/errcode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/errcode/errcode.go b/lib/errcode/errcode.go
index f1d93d5..39af3eb 100644
--- a/lib/errcode/errcode.go
+++ b/lib/errcode/errcode.go
@@ -86,6 +86,9 @@ func Cause(e error) Codes {
 	if ok {
 		return ec
 	}
+	if errors.As(e, &ec) { // wrapped with %w
+		return ec
+	}
 	return String(e.Error())
 }
 
-- 
2.43.0


From 00499c499c1c7cf684d2dc925fc7dc3e00e9505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:37 +0000
Subject: [PATCH 52/52] fix: a registration whose context has ended still takes
 its record back

---
 core/addressbook/addressbook_impl.go | 2 +-
 core/node/system_impl.go             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index e50bdb0..d509285 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -80,7 +80,7 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 	}, id, addrJSON, ab.NodeID, nodeInfoJSON, fmt.Sprintf("actor:%s", ty), weight).Err()
 	if err != nil {
 		// the record may be there although the reply is not
-		unregisterScript.Run(ctx, trdredis.GetClient(), []string{
+		unregisterScript.Run(context.WithoutCancel(ctx), trdredis.GetClient(), []string{
 			def.RedisAddressbookIDField,
 			fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty),
 			makeNodeKey(ab.NodeID),
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 8aeac9d..88098e7 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -115,7 +115,7 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	defer func() {
 		if !entered {
 			if recorded { // nothing runs under the record: beyond the limit, or the constructor or Init panicked
-				sys.addressbook.Unregister(ctx, builder.GetID(), builder.GetWeight())
+				sys.addressbook.Unregister(context.WithoutCancel(ctx), builder.GetID(), builder.GetWeight())
 			}
 			sys.Lock()
 			delete(sys.registering, builder.GetID())
-- 
2.43.0

