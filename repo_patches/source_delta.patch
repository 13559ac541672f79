From 60a05317d46e5338ae77de46e97506684028623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 01/65] fix: remove view cache informers under the write lock

RemoveInformer deleted from the informer map without holding the lock, racing
with concurrent lookups and registrations.
---
 pkg/cache/view_cache.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ce8d5e6..6cd913b 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -221,13 +221,10 @@ func (c *ViewCache) GetInformerForKind(ctx context.Context, gvk schema.GroupVers
 func (c *ViewCache) RemoveInformer(ctx context.Context, obj client.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
 
-	c.mu.RLock()
-	_, exists := c.informers[gvk]
-	c.mu.RUnlock()
+	c.mu.Lock()
+	defer c.mu.Unlock()
 
-	if exists {
-		delete(c.informers, gvk)
-	}
+	delete(c.informers, gvk)
 
 	return nil
 }
-- 
2.43.0


From 6a61dbb6f7026f96e58bf418acab2d22c02a55d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 02/65] fix: access informer handlers and transform under the
 lock

TriggerEvent inspected the handler map before taking the lock and
AddEventHandler used the transform after releasing it.
---
 pkg/cache/view_cache_informer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 0e6bde1..78c5342 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -67,6 +67,7 @@ func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHand
 		id:                   id,
 	}
 	c.handlers[id] = he
+	transform := c.transform
 	c.mutex.Unlock()
 
 	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", id,
@@ -81,9 +82,9 @@ func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHand
 
 		// Apply transform if needed (same logic as TriggerEvent)
 		newObj := obj
-		if c.transform != nil {
+		if transform != nil {
 			newObj = object.DeepCopy(newObj)
-			item, err := c.transform(newObj)
+			item, err := transform(newObj)
 			if err != nil {
 				c.log.Error(err, "Failed to transform object during initial sync")
 				continue
@@ -137,15 +138,15 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 // isInitialList to true if event is an Added as a part of the initial object list. For all event
 // types except Update events the oldObj must not be nil.
 func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	if len(c.handlers) == 0 {
 		c.log.V(4).Info("suppressing event trigger: no handlers", "event", eventType,
 			"object", object.Dump(newObj))
 		return
 	}
 
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
-
 	c.log.V(8).Info("triggering event", "event", eventType, "object", object.Dump(newObj),
 		"isInitial", isInitialList)
 
-- 
2.43.0


From 5107f9ed12266eb506a02902341ef482f1bb77ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 03/65] fix: iterate a private copy of the delegating informers

The event loops iterated the registered slice after releasing the lock while
UnregisterDelegatingInformer rewrites the same backing array in place, so an
informer could be skipped or notified twice.
---
 pkg/cache/view_cache.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index 6cd913b..19c23e0 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"slices"
 	"sync"
 	"time"
 
@@ -266,7 +267,7 @@ func (c *ViewCache) Add(obj object.Object) error {
 
 	// Also trigger event on all delegating informers
 	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
+	delegatingInfs := slices.Clone(c.delegatingInformers[gvk])
 	c.mu.RUnlock()
 
 	for _, dinf := range delegatingInfs {
@@ -317,7 +318,7 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 
 	// Also trigger event on all delegating informers
 	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
+	delegatingInfs := slices.Clone(c.delegatingInformers[gvk])
 	c.mu.RUnlock()
 
 	for _, dinf := range delegatingInfs {
@@ -378,7 +379,7 @@ func (c *ViewCache) Delete(obj object.Object) error {
 
 	// Also trigger event on all delegating informers
 	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
+	delegatingInfs := slices.Clone(c.delegatingInformers[gvk])
 	c.mu.RUnlock()
 
 	for _, dinf := range delegatingInfs {
-- 
2.43.0


From dad65acfe7f298cd2d019100a3b2e3954723a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 04/65] fix: store the generated OpenAPI definitions under the
 write lock

---
 pkg/apiserver/openapi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/apiserver/openapi.go b/pkg/apiserver/openapi.go
index 2fe8460..c2f7a98 100644
--- a/pkg/apiserver/openapi.go
+++ b/pkg/apiserver/openapi.go
@@ -26,9 +26,9 @@ func (s *APIServer) getOpenAPIv2Handler() openapicommon.GetOpenAPIDefinitions {
 
 		defs := s.generateOpenAPIDefs(ref)
 
-		s.mu.RLock()
+		s.mu.Lock()
 		s.cachedOpenAPIDefs = defs
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		return defs
 	}
@@ -87,9 +87,9 @@ func (s *APIServer) getOpenAPIv3Handler() openapicommon.GetOpenAPIDefinitions {
 		}
 
 		defs := s.generateOpenAPIDefs(ref)
-		s.mu.RLock()
+		s.mu.Lock()
 		s.cachedOpenAPIV3Defs = defs
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		return defs
 	}
-- 
2.43.0


From 94171816e8c1e4b62a71d1661a418c5ef915edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 05/65] fix: read the pipeline caches under the pipeline lock

GetSourceCache read the source cache map concurrently with Evaluate, which
writes it.
---
 pkg/pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index d8d7ff0..6e83701 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -177,6 +177,8 @@ func (p *Pipeline) String() string {
 // GetTargetCache returns the pipeline's internal target cache.
 // This is primarily useful for testing to synchronize external state with the pipeline's view.
 func (p *Pipeline) GetTargetCache() *cache.Store {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	return p.targetCache
 }
 
@@ -184,6 +186,8 @@ func (p *Pipeline) GetTargetCache() *cache.Store {
 // This is primarily useful for testing to synchronize external state with the pipeline's view.
 // Returns nil if no cache exists for the given GVK.
 func (p *Pipeline) GetSourceCache(gvk schema.GroupVersionKind) *cache.Store {
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	return p.sourceCache[gvk]
 }
 
-- 
2.43.0


From e5787224685195c912591e7032ecc8d6e45af18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 06/65] fix: start the CRD manager only once

OpController.Start started the same manager in a goroutine and again in the
foreground. A manager refuses a second start, so whenever the goroutine won
the race Start returned "manager already started" and the process exited.
---
 pkg/kubernetes/controllers/operator.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 9c5ad70..1065c7a 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -322,15 +322,6 @@ func (c *OpController) Start(ctx context.Context) error {
 	c.ctx = ctx
 	c.mu.Unlock()
 
-	// Start the operator manager in the background
-	go func() {
-		c.log.V(2).Info("starting operator manager")
-
-		if err := c.crdMgr.Start(ctx); err != nil {
-			c.log.Error(err, "operator manager error")
-		}
-	}()
-
 	// Start all operators
 	for _, e := range es {
 		c.startOp(e)
-- 
2.43.0


From a02ce8933dd3de5d1470fc7aa5e0f8b8056298af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 07/65] fix: do not close the error channel while operators may
 still send on it

On shutdown the aggregator closed the channel under the operators' goroutines:
an operator reporting an error at that point panicked with a send on a closed
channel.
---
 pkg/kubernetes/controllers/operator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 1065c7a..bb48777 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -246,7 +246,8 @@ func (c *OpController) DeleteOperator(name string) {
 // startOp starts error channel aggregation for an operator.
 func (c *OpController) startOp(e *opEntry) {
 	// Create a context for the operator and start it
-	ctx, cancel := context.WithCancel(c.ctx)
+	base := c.ctx
+	ctx, cancel := context.WithCancel(base)
 	c.mu.Lock()
 	e.ctx = ctx
 	e.cancel = cancel
@@ -254,8 +255,10 @@ func (c *OpController) startOp(e *opEntry) {
 
 	go func() {
 		if err := e.op.Start(ctx); err != nil {
-			c.errorChan <- err
-			return
+			select {
+			case c.errorChan <- err:
+			case <-base.Done():
+			}
 		}
 	}()
 
@@ -264,7 +267,6 @@ func (c *OpController) startOp(e *opEntry) {
 		for {
 			select {
 			case err := <-e.errorChan:
-				// Use non-blocking send to avoid writing to closed channel
 				select {
 				case c.errorChan <- err:
 				case <-ctx.Done():
@@ -329,7 +331,6 @@ func (c *OpController) Start(ctx context.Context) error {
 
 	// Surface errors from operators and generate CRD statuses.
 	go func() {
-		defer close(c.errorChan)
 		for {
 			select {
 			case err := <-c.errorChan:
-- 
2.43.0


From 6e4c5b74f38c94dc8ecc0ccc2eb2a7b0a7b3c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 08/65] fix: guard the operator lifecycle state of OpController
 with its mutex

started, ctx, apiServer and the cancel function of an entry were accessed
without the lock: an operator added while the controller starts could be
started twice, and deleting one that was not started yet called a nil cancel
function.
---
 pkg/kubernetes/controllers/operator.go | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index bb48777..cf7581b 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -155,8 +155,8 @@ func (c *OpController) GetClient() client.Client {
 // The API server lifecycle is not managed by the controller; make sure to run
 // apiServer.Start before calling Start on the controller.
 func (c *OpController) SetAPIServer(apiServer *apiserver.APIServer) {
-	c.apiServer = apiServer
 	c.mu.Lock()
+	c.apiServer = apiServer
 	for _, e := range c.operators {
 		e.op.SetAPIServer(apiServer)
 	}
@@ -185,10 +185,11 @@ func (c *OpController) AddOperator(op *operator.Operator) {
 	e := &opEntry{op: op, errorChan: op.GetErrorChannel()}
 	c.mu.Lock()
 	c.operators[name] = e
+	started := c.started
 	c.mu.Unlock()
 
 	// Start the new operator if we are already running
-	if c.started {
+	if started {
 		c.startOp(e)
 	}
 }
@@ -200,9 +201,12 @@ func (c *OpController) AddOperatorFromSpec(name string, spec *opv1a1.OperatorSpe
 
 	// Use the shared operator manager for this operator
 	errorChan := make(chan error, StatusChannelBufferSize)
+	c.mu.Lock()
+	apiServer := c.apiServer
+	c.mu.Unlock()
 	op, err := operator.New(name, c.config, operator.Options{
 		Cache:        c.sharedCache,
-		APIServer:    c.apiServer,
+		APIServer:    apiServer,
 		ErrorChannel: errorChan,
 		Logger:       c.logger,
 	})
@@ -236,19 +240,27 @@ func (c *OpController) DeleteOperator(name string) {
 		return
 	}
 	delete(c.operators, name)
+	cancel := e.cancel
 	c.mu.Unlock()
 
 	c.log.V(4).Info("deleting operator", "name", name)
 	e.op.UnregisterGVKs()
-	e.cancel()
+	if cancel != nil { // nil if never started
+		cancel()
+	}
 }
 
 // startOp starts error channel aggregation for an operator.
 func (c *OpController) startOp(e *opEntry) {
+	c.mu.Lock()
+	if c.operators[e.op.GetName()] != e {
+		// The operator has been deleted in the meantime
+		c.mu.Unlock()
+		return
+	}
 	// Create a context for the operator and start it
 	base := c.ctx
 	ctx, cancel := context.WithCancel(base)
-	c.mu.Lock()
 	e.ctx = ctx
 	e.cancel = cancel
 	c.mu.Unlock()
@@ -311,11 +323,10 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 // Starts both the CRD manager (for watching Operator CRDs) and the operator manager
 // (for running operators and storing views).
 func (c *OpController) Start(ctx context.Context) error {
-	c.log.V(2).Info("starting operator controller", "num-operators", len(c.operators),
-		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
-
 	// Mark as started and collect operators to start
 	c.mu.Lock()
+	c.log.V(2).Info("starting operator controller", "num-operators", len(c.operators),
+		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
 	es := []*opEntry{}
 	for _, e := range c.operators {
 		es = append(es, e)
-- 
2.43.0


From a9eba8d040b3668d4fe719a2dd9201f68db82c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 09/65] fix: make the controller error reporter safe for
 concurrent use

Reconcilers push errors from their worker goroutines while the operator
controller reports the status from another one.
---
 pkg/controller/status_reporter.go | 38 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/pkg/controller/status_reporter.go b/pkg/controller/status_reporter.go
index 547e8d1..946569c 100644
--- a/pkg/controller/status_reporter.go
+++ b/pkg/controller/status_reporter.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/time/rate"
@@ -30,9 +31,11 @@ type Error struct {
 	Operator, Controller string
 }
 
-// errorReporter is the error stack implementation.
+// errorReporter is the error stack implementation. Errors are pushed by the reconcilers of the
+// controller while the status is being reported from another goroutine.
 type errorReporter struct {
 	c           *DeclarativeController
+	mu          sync.Mutex // protects errorStack and critical
 	errorStack  []error
 	ratelimiter rate.Sometimes
 	errorChan   chan error
@@ -61,33 +64,42 @@ func (s *errorReporter) PushErrorf(format string, a ...any) error {
 
 // PushCritical pushes a critical error to the error stack.
 func (s *errorReporter) PushCritical(err error) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(err)
 }
 
 // PushCriticalError pushes a critical error to the error stack.
 func (s *errorReporter) PushCriticalError(msg string) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(errors.New(msg))
 }
 
 // PushCriticalErrorf pushes a formatted critical error to the error stack.
 func (s *errorReporter) PushCriticalErrorf(format string, a ...any) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(fmt.Errorf(format, a...))
 }
 
+func (s *errorReporter) setCritical() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.critical = true
+}
+
 // Push pushes a critical or non-critical error to the stack.
 func (s *errorReporter) push(err error) error {
 	ctrlErr := Error{Operator: s.c.op, Controller: s.c.name, error: err}
 
-	// ask a status update if trigger is set
+	// ask a status update if trigger is set (may block: never do this with the lock held)
 	defer s.ratelimiter.Do(func() {
 		if s.errorChan != nil {
 			s.errorChan <- ctrlErr
 		}
 	})
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	if len(s.errorStack) == ErrorReporterStackSize {
 		copy(s.errorStack, s.errorStack[1:])
 		s.errorStack[len(s.errorStack)-1] = ctrlErr
@@ -100,7 +112,9 @@ func (s *errorReporter) push(err error) error {
 
 // Pop pops the extra error from the stack.
 func (s *errorReporter) Pop() {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return
 	}
 	s.errorStack = s.errorStack[:len(s.errorStack)-1]
@@ -108,7 +122,9 @@ func (s *errorReporter) Pop() {
 
 // Top returns the last errors from the stack.
 func (s *errorReporter) Top() error {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return nil
 	}
 	return s.errorStack[len(s.errorStack)-1]
@@ -116,21 +132,27 @@ func (s *errorReporter) Top() error {
 
 // Size returns the number of errors on the stack.
 func (s *errorReporter) Size() int {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return len(s.errorStack)
 }
 
 // IsEmpty returns true if the stack is empty.
 func (s *errorReporter) IsEmpty() bool {
-	return len(s.errorStack) == 0
+	return s.Size() == 0
 }
 
 // HasCritical returns true if the stack contains a critical error.
 func (s *errorReporter) HasCritical() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return s.critical
 }
 
 // Report returns the error messages on the stack.
 func (s *errorReporter) Report() []string {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	errs := []string{}
 	for _, err := range s.errorStack {
 		errs = append(errs, trim(err.Error()))
-- 
2.43.0


From 8862d17ed8320d8f6ceb200aad7c9c6aa453bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 10/65] fix: convert unwind and lifted operators to snapshot
 mode

---
 pkg/dbsp/graph_converter.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pkg/dbsp/graph_converter.go b/pkg/dbsp/graph_converter.go
index 2ae690c..bf9c603 100644
--- a/pkg/dbsp/graph_converter.go
+++ b/pkg/dbsp/graph_converter.go
@@ -5,12 +5,15 @@ import "fmt"
 // opConverter is a function that converts an operator to a different mode.
 type opConverter func(Operator) (Operator, error)
 
+// chainFilter decides whether the operator at the given position of the chain is to be left out.
+type chainFilter func(*ChainGraph, int) bool
+
 // ToSnapshotGraph converts an incremental ChainGraph to a snapshot ChainGraph.
 // This replaces incremental join operators with their snapshot equivalents.
 // Non-linear operators like GatherOp remain unchanged (they're lifted with I→Op→D
 // in incremental mode, which gets stripped when converting to snapshot).
 func ToSnapshotGraph(incrementalGraph *ChainGraph) (*ChainGraph, error) {
-	return convertGraph(incrementalGraph, "incremental", convertToSnapshotJoin, convertToSnapshotOperator)
+	return convertGraph(incrementalGraph, "incremental", convertToSnapshotJoin, convertToSnapshotOperator, isLiftingOp)
 }
 
 // ToIncrementalGraph converts a snapshot ChainGraph to an incremental ChainGraph.
@@ -18,11 +21,11 @@ func ToSnapshotGraph(incrementalGraph *ChainGraph) (*ChainGraph, error) {
 // Non-linear operators like GatherOp are NOT converted here - they are lifted
 // with I→Op→D by the NonLinearLiftingRule in the rewrite engine.
 func ToIncrementalGraph(snapshotGraph *ChainGraph) (*ChainGraph, error) {
-	return convertGraph(snapshotGraph, "snapshot", convertToIncrementalJoin, convertToIncrementalOperator)
+	return convertGraph(snapshotGraph, "snapshot", convertToIncrementalJoin, convertToIncrementalOperator, nil)
 }
 
 // convertGraph is a helper that converts a ChainGraph using the provided converter functions.
-func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opConverter opConverter) (*ChainGraph, error) {
+func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opConverter opConverter, strip chainFilter) (*ChainGraph, error) {
 	if err := sourceGraph.Validate(); err != nil {
 		return nil, fmt.Errorf("invalid %s graph: %w", sourceType, err)
 	}
@@ -47,7 +50,10 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	}
 
 	// Convert chain operators.
-	for _, nodeID := range sourceGraph.chain {
+	for i, nodeID := range sourceGraph.chain {
+		if strip != nil && strip(sourceGraph, i) {
+			continue
+		}
 		node := sourceGraph.nodes[nodeID]
 		convertedOp, err := opConverter(node.Op)
 		if err != nil {
@@ -59,6 +65,19 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	return targetGraph, nil
 }
 
+// isLiftingOp returns true for the integrator before and the differentiator after a lifted non-linear
+// operator: these exist only to make the operator incremental.
+func isLiftingOp(graph *ChainGraph, i int) bool {
+	switch graph.nodes[graph.chain[i]].Op.(type) {
+	case *IntegratorOp:
+		return i+1 < len(graph.chain) && graph.nodes[graph.chain[i+1]].Lifted
+	case *DifferentiatorOp:
+		return i > 0 && graph.nodes[graph.chain[i-1]].Lifted
+	default:
+		return false
+	}
+}
+
 // convertToSnapshotJoin converts an incremental join to snapshot join.
 func convertToSnapshotJoin(op Operator) (Operator, error) {
 	switch o := op.(type) {
@@ -97,7 +116,7 @@ func convertToIncrementalJoin(op Operator) (Operator, error) {
 func convertToSnapshotOperator(op Operator) (Operator, error) {
 	switch op.(type) {
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
@@ -130,7 +149,7 @@ func convertToIncrementalOperator(op Operator) (Operator, error) {
 		return op, nil
 
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
-- 
2.43.0


From a6d8eb4f4cbc2624b50531b8b2d593c9e697f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 11/65] fix: reset the state of n-ary incremental joins

---
 pkg/dbsp/executor.go    | 2 ++
 pkg/dbsp/op_bilinear.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 795076e..50f6ef2 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -117,6 +117,8 @@ func (e *Executor) resetOperator(op Operator) {
 		o.Reset()
 	case *IncrementalBinaryJoinOp:
 		o.Reset()
+	case *IncrementalJoinOp:
+		o.Reset()
 		// Note: Non-linear operators (GatherOp) don't need Reset() - they are lifted with
 		// I→Op→D and the Integrator/Differentiator handle state management.
 	}
diff --git a/pkg/dbsp/op_bilinear.go b/pkg/dbsp/op_bilinear.go
index 8dd36d8..3afe90d 100644
--- a/pkg/dbsp/op_bilinear.go
+++ b/pkg/dbsp/op_bilinear.go
@@ -99,6 +99,11 @@ func (op *IncrementalJoinOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, er
 	return result, nil
 }
 
+// Reset state (useful for testing or restarting computation).
+func (op *IncrementalJoinOp) Reset() {
+	op.prevStates = make([]*DocumentZSet, op.n)
+}
+
 func (op *IncrementalJoinOp) computeTerm(inputs []*DocumentZSet, mask int) (*DocumentZSet, error) {
 	// Create the input combination for this term
 	termInputs := make([]*DocumentZSet, op.n)
-- 
2.43.0


From 3c6d985e805bf8f46fc76635fb800b58358aef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 12/65] fix: retract the cached version of a deleted object

---
 pkg/pipeline/zset_adaptor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 3beb083..6fcbe8d 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -87,7 +87,8 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 					delta.Type, ObjectKey(deltaObj)))
 		}
 
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), -1); err != nil {
+		// retract the version that was added: the event may carry a different one
+		if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
 					delta.Type, ObjectKey(deltaObj), err))
-- 
2.43.0


From e635286afce096be41eb1114363c4d2e0f6514a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 13/65] fix: decode secrets on a copy of the request object

---
 pkg/controller/reconcilers.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index c0351d0..3b9295e 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -44,8 +44,9 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		return reconcile.Result{}, nil
 	}
 
-	// Automatically decode Secret data fields for use in pipeline expressions.
-	obj := object.DecodeSecretData(req.Object)
+	// Automatically decode Secret data fields for use in pipeline expressions. Decode a copy: the
+	// snapshot in the request is reused on retries and as the base of patches.
+	obj := object.DecodeSecretData(object.DeepCopy(req.Object))
 
 	// Create the delta
 	delta := object.Delta{
@@ -100,9 +101,6 @@ func NewStateOfTheWorldReconciler(mgr manager.Manager, c *DeclarativeController)
 // target state (based on current sources) and the actual target state, then applies
 // the delta to bring the target up to date.
 func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconciler.Request) (reconcile.Result, error) {
-	// Automatically decode Secret data fields for use in pipeline expressions.
-	req.Object = object.DecodeSecretData(req.Object)
-
 	// Call pipeline.Sync() to compute the delta needed to reconcile target state.
 	deltas, err := r.controller.pipeline.Sync()
 	if err != nil {
-- 
2.43.0


From f8018cc453297b259d759344475c84d726b2c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 14/65] fix: create the pipeline before starting the watches of
 a controller

---
 pkg/controller/declarative.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 570478f..3a4ee4c 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -83,8 +83,30 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 
 	c.log.V(4).Info("creating", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")))
 
-	on := true
+	// Only incremental sources flow through the pipeline.
 	baseviews := []schema.GroupVersionKind{}
+	for _, s := range c.sources {
+		gvk, err := s.GetGVK()
+		if err != nil {
+			return c, c.PushCriticalErrorf("failed to obtain GVK for source %s: %w",
+				util.Stringify(s), err)
+		}
+		if s.Type() != opv1a1.Periodic {
+			baseviews = append(baseviews, gvk)
+		}
+	}
+
+	// Create the pipeline. This must precede starting the watches: on a running manager requests
+	// may be dispatched to the reconcilers right after a watch is started.
+	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
+		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
+	if err != nil {
+		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
+			c.name, err)
+	}
+	c.pipeline = pipeline
+
+	on := true
 	for i, s := range c.sources {
 		gvk, err := s.GetGVK()
 		if err != nil {
@@ -100,8 +122,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		} else {
 			// Incremental reconciler for watcher and oneshot sources.
 			rec = NewIncrementalReconciler(mgr, c)
-			// Only incremental sources flow through the pipeline.
-			baseviews = append(baseviews, gvk)
 		}
 
 		// Create the controller with a unique name per source.
@@ -134,15 +154,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		c.log.V(4).Info("watching resource", "GVK", s.String(), "controller", ctrlName)
 	}
 
-	// Create the pipeline.
-	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
-		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
-	if err != nil {
-		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
-			c.name, err)
-	}
-	c.pipeline = pipeline
-
 	c.log.Info("controller ready", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")),
 		"pipeline", c.pipeline.String(), "target", c.target.String(),
 		"errors", strings.Join(c.Report(), ","))
-- 
2.43.0


From 1332b95a1fa29f5fe4a24025edeadda0168119d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 15/65] fix: report a failed create when there is no object to
 update

---
 pkg/reconciler/ctrlutils.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 27cf729..37c491f 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -29,7 +29,8 @@ func isViewObject(obj client.Object) bool {
 //
 // Note: this version differs from default controllerutil.CreateOrUpdate in two ways:
 //   - it uses the unstructured API via object.Object
-//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored
+//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored, unless it turns
+//     out that there is no object to update either
 //
 // Status handling: For resources with status as a subresource (native Kubernetes objects like
 // Pods), client.Update() does NOT update status. This function saves the status before Update(),
@@ -37,6 +38,7 @@ func isViewObject(obj client.Object) bool {
 // (like view objects), this redundantly updates status twice but is harmless.
 func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f controllerutil.MutateFn) (controllerutil.OperationResult, error) {
 	key := client.ObjectKeyFromObject(obj)
+	var createErr error
 	if err := c.Get(ctx, key, obj); err != nil {
 		if !apierrors.IsNotFound(err) {
 			return controllerutil.OperationResultNone, err
@@ -45,7 +47,8 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 			return controllerutil.OperationResultNone, err
 		}
 		if err := c.Create(ctx, obj); err != nil {
-			// this is not an error: default to the update branch
+			// this may not be an error: default to the update branch
+			createErr = err
 			goto update
 		}
 		return controllerutil.OperationResultCreated, nil
@@ -60,6 +63,10 @@ update:
 	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
 
 	if err := c.Update(ctx, obj); err != nil {
+		if createErr != nil && apierrors.IsNotFound(err) {
+			// there is nothing to update: the object could not be created
+			return controllerutil.OperationResultNone, createErr
+		}
 		return controllerutil.OperationResultNone, err
 	}
 
-- 
2.43.0


From 5c60e487309fe78651b0e28436da88cc52b030eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 16/65] fix: write the generated private key with private file
 permissions

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 09c6d87..2e62887 100644
--- a/main.go
+++ b/main.go
@@ -149,7 +149,7 @@ func runGenerateKeys(_ *cobra.Command, cfg genKeysConfig) error {
 		return fmt.Errorf("failed to generate keys: %w", err)
 	}
 
-	if err := auth.WriteCertAndKey(cfg.keyFile, cfg.certFile, key, cert); err != nil {
+	if err := auth.WriteCertAndKey(cfg.certFile, cfg.keyFile, cert, key); err != nil {
 		return fmt.Errorf("failed to write key/cert into file %q/%q: %w", cfg.keyFile, cfg.certFile, err)
 	}
 
-- 
2.43.0


From 21820d77393ec21682be4db681dfb3541e2cc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 17/65] fix: honor the address and port flags of the start
 command

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 2e62887..08484cc 100644
--- a/main.go
+++ b/main.go
@@ -201,8 +201,8 @@ func startServerCmd() *cobra.Command {
 		},
 	}
 
-	cmd.Flags().StringVar(&cfg.addr, "addr", "localhost", "API server bind address")
-	cmd.Flags().IntVar(&cfg.port, "port", 8443, "API server port")
+	cmd.Flags().StringVar(&cfg.addr, "addr", "0.0.0.0", "API server bind address")
+	cmd.Flags().IntVar(&cfg.port, "port", APIServerPort, "API server port")
 	cmd.Flags().BoolVar(&cfg.httpMode, "http", false, "Use HTTP instead of HTTPS (no TLS)")
 	cmd.Flags().BoolVar(&cfg.insecure, "insecure", false, "Accept self-signed TLS certificates (HTTPS only)")
 	cmd.Flags().StringVar(&cfg.certFile, "tls-cert-file", "apiserver.crt",
@@ -258,7 +258,7 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 	ctx := ctrl.SetupSignalHandler()
 
 	if !cfg.disableAPIServer {
-		apiServerCfg, err := apiserver.NewDefaultConfig("0.0.0.0", APIServerPort, api.Client,
+		apiServerCfg, err := apiserver.NewDefaultConfig(cfg.addr, cfg.port, api.Client,
 			cfg.httpMode, cfg.insecure, logger)
 		if err != nil {
 			setupLog.Error(err, "failed to create the config for the embedded API server")
-- 
2.43.0


From c0157a84b8476262c1f385a493fe490c3e3c968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 18/65] fix: refuse to generate an unrestricted token for an
 empty restriction

---
 main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/main.go b/main.go
index 08484cc..1976a8b 100644
--- a/main.go
+++ b/main.go
@@ -402,6 +402,10 @@ func runGenerateConfig(cfg generateConfigConfig) error {
 	var namespacesList []string
 	if cfg.namespaces != "" {
 		namespacesList = parseCommaSeparated(cfg.namespaces)
+		if len(namespacesList) == 0 {
+			// an empty list would mean no restrictions
+			return fmt.Errorf("no namespace in the namespace list %q", cfg.namespaces)
+		}
 	}
 
 	// Parse RBAC rules
@@ -421,8 +425,17 @@ func runGenerateConfig(cfg generateConfigConfig) error {
 			return fmt.Errorf("failed to parse rules JSON: %w", err)
 		}
 	}
+	if (cfg.rulesFile != "" || cfg.rules != "") && len(rulesList) == 0 {
+		// an empty list would mean full access
+		return fmt.Errorf("no RBAC rule in the rule list")
+	}
 	// If both are empty, rulesList will be nil/empty = full access
 
+	if cfg.resourceNames != "" && (len(rulesList) == 0 || len(parseCommaSeparated(cfg.resourceNames)) == 0) {
+		return fmt.Errorf("cannot restrict access to the resource names %q: no RBAC rule or no name",
+			cfg.resourceNames)
+	}
+
 	// Apply resourceNames to last rule if specified
 	if cfg.resourceNames != "" && len(rulesList) > 0 {
 		resourceNamesList := parseCommaSeparated(cfg.resourceNames)
-- 
2.43.0


From 7600b805fb959d665c7cae4ef2294a1ab0ff424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 19/65] fix: set the keys of a dict literal in a deterministic
 order

---
 pkg/expression/expression.go |  5 ++++-
 pkg/expression/jsonpath.go   | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index bea0d5e..ae100ff 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -218,7 +218,10 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 					errors.New("argument must be a string->expression map"))
 			}
 
-			for k, exp := range vm {
+			// the order matters when one key refers into the value set by another one
+			for _, k := range sortedDictKeys(vm) {
+				exp := vm[k]
+
 				// evaluate arguments
 				res, err := exp.Evaluate(ctx)
 				if err != nil {
diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 11d94fc..de6a900 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -1,8 +1,10 @@
 package expression
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
+	"slices"
 
 	"github.com/ohler55/ojg/jp"
 )
@@ -139,3 +141,28 @@ func SetJSONPathRawExp(keyExp *Expression, value, data any) error {
 
 	return nil
 }
+
+// sortedDictKeys returns the keys of a dict literal in the order they are to be set: the root
+// reference first, then the plain keys, then the JSONPath keys, parents before their children.
+func sortedDictKeys(dict map[string]Expression) []string {
+	rank := func(key string) int {
+		switch {
+		case key == "$.":
+			return 0
+		case len(key) == 0 || key[0] != '$':
+			return 1
+		default:
+			return 2
+		}
+	}
+
+	keys := make([]string, 0, len(dict))
+	for k := range dict {
+		keys = append(keys, k)
+	}
+	slices.SortFunc(keys, func(a, b string) int {
+		return cmp.Or(cmp.Compare(rank(a), rank(b)), cmp.Compare(a, b))
+	})
+
+	return keys
+}
-- 
2.43.0


From 467b09e3f7afc14ea7ad99e7090023f0c6faa924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 20/65] fix: do not modify the evaluated object through a dict
 literal

---
 pkg/expression/jsonpath.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index de6a900..1a17be1 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -7,6 +7,8 @@ import (
 	"slices"
 
 	"github.com/ohler55/ojg/jp"
+
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 // GetJSONPath evaluates a string op that may or may not be a JSONPath expession.
@@ -57,6 +59,10 @@ func SetJSONPath(ctx EvalCtx, key string, value, data any) error {
 		value = res
 	}
 
+	// the value may be part of the evaluated object, which must not change when another key is set
+	// inside the value later
+	value = object.DeepCopyAny(value)
+
 	// copy: if key is a JSONpath root ref and the result is a map, overwrite the entire map
 	// if d, ok := data.(Unstructured); ok && key == "$." {
 	if key == "$." {
-- 
2.43.0


From 079a080fbdde5113be37d1ab0b4fcf8a8f578a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 21/65] fix: choose the representative document of a group
 deterministically

---
 pkg/dbsp/op_nonlinear.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index c64234f..017be67 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -3,6 +3,7 @@ package dbsp
 import (
 	"cmp"
 	"fmt"
+	"maps"
 	"slices"
 )
 
@@ -40,7 +41,9 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	// Step 1: Group documents by key, preserving one representative document per group
 	groups := make(map[string]*GroupData)
 
-	for key, multiplicity := range input.counts {
+	// visit the documents in a fixed order: the first one becomes the representative
+	for _, key := range slices.Sorted(maps.Keys(input.counts)) {
+		multiplicity := input.counts[key]
 		doc := input.docs[key]
 
 		// Extract key and value
-- 
2.43.0


From 3ec063d936b8067b0b308e26d49d00ee27f8115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 22/65] fix: report values that cannot be compared when
 removing them from a group

---
 pkg/dbsp/op_nonlinear.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index 017be67..b79d18e 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -87,7 +87,11 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 		} else if multiplicity < 0 {
 			// Deletions - remove matching values
 			for i := 0; i < -multiplicity; i++ {
-				groups[keyForMap].Values = removeFirstMatch(groups[keyForMap].Values, value)
+				rest, err := removeFirstMatch(groups[keyForMap].Values, value)
+				if err != nil {
+					return nil, err
+				}
+				groups[keyForMap].Values = rest
 			}
 		}
 	}
@@ -135,15 +139,21 @@ func (op *GatherOp) OpType() OperatorType              { return OpTypeNonLinear
 func (op *GatherOp) IsTimeInvariant() bool             { return true }
 func (op *GatherOp) HasZeroPreservationProperty() bool { return true }
 
-func removeFirstMatch(slice []any, item any) []any {
+func removeFirstMatch(slice []any, item any) ([]any, error) {
+	iKey, err := computeJSONAny(item)
+	if err != nil {
+		return nil, err
+	}
 	for i, v := range slice {
-		vKey, _ := computeJSONAny(v)
-		iKey, _ := computeJSONAny(item)
+		vKey, err := computeJSONAny(v)
+		if err != nil {
+			return nil, err
+		}
 		if vKey == iKey {
-			return append(slice[:i], slice[i+1:]...)
+			return append(slice[:i], slice[i+1:]...), nil
 		}
 	}
-	return slice
+	return slice, nil
 }
 
 // sortValues sorts a slice of any values for deterministic output.
-- 
2.43.0


From 459bee02a52cbd439ebeca21c2ffed8c79d6349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 23/65] fix: honor the list options of the view cache given in
 any form

---
 pkg/cache/view_cache.go | 46 ++++++-----------------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index 19c23e0..c811d46 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -452,26 +452,9 @@ func (c *ViewCache) List(ctx context.Context, list client.ObjectList, opts ...cl
 	c.log.V(5).Info("list", "listGVK", listGVK, "objGVK", objGVK)
 
 	// Extract selectors from options
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
-	}
+	var listOpts client.ListOptions
+	listOpts.ApplyOptions(opts)
+	labelSelector, fieldSelector, namespace := listOpts.LabelSelector, listOpts.FieldSelector, listOpts.Namespace
 
 	for _, item := range cache.List() {
 		target, ok := item.(object.Object)
@@ -554,26 +537,9 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	}
 
 	// Extract selectors from options (same logic as List method)
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
-	}
+	var listOpts client.ListOptions
+	listOpts.ApplyOptions(opts)
+	labelSelector, fieldSelector, namespace := listOpts.LabelSelector, listOpts.FieldSelector, listOpts.Namespace
 
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
-- 
2.43.0


From 86f6636183e7f53d735619fcf792be633d900b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:23 +0000
Subject: [PATCH 24/65] fix: do not ignore restrictions when deleting all
 objects of a view

---
 pkg/cache/view_client.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 88dc34c..ed1698c 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -138,21 +138,8 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 // DeleteAllOf deletes all objects of the given type matching the given options.
 func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
 	// Convert delete options to list options
-	var listOpts []client.ListOption
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.InNamespace:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabels:
-			listOpts = append(listOpts, o)
-		case client.MatchingFields:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabelsSelector:
-			listOpts = append(listOpts, o)
-		case client.MatchingFieldsSelector:
-			listOpts = append(listOpts, o)
-		}
-	}
+	var deleteOpts client.DeleteAllOfOptions
+	deleteOpts.ApplyOptions(opts)
 
 	// List all matching objects
 	viewObj, ok := obj.(object.Object)
@@ -161,7 +148,7 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	}
 
 	list := NewViewObjectList(object.GetOperator(viewObj), viewObj.GetKind())
-	if err := c.cache.List(ctx, list, listOpts...); err != nil {
+	if err := c.cache.List(ctx, list, &deleteOpts.ListOptions); err != nil {
 		return err
 	}
 
-- 
2.43.0


From e5485e4a3fa94f057c99bcc6cc1dceff55367f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 25/65] fix: tell watchers about objects leaving their
 selection

---
 pkg/cache/view_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index c811d46..bd96834 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -560,6 +560,9 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 			// Check if object matches selectors after update
 			if watcher.shouldIncludeObject(newObj) {
 				watcher.sendEvent(watch.Modified, newObj)
+			} else if watcher.shouldIncludeObject(oldObj) {
+				// The object left the selection: for the watcher it is gone
+				watcher.sendEvent(watch.Deleted, newObj)
 			}
 		},
 		DeleteFunc: func(obj any) {
@@ -627,7 +630,7 @@ type ViewCacheWatcher struct {
 // shouldIncludeObject determines if an object should be included based on selectors.
 func (w *ViewCacheWatcher) shouldIncludeObject(o any) bool {
 	obj, ok := o.(object.Object)
-	if !ok {
+	if !ok || obj == nil {
 		w.logger.V(4).Info("watch: ignoring non-object.Object")
 		return false
 	}
-- 
2.43.0


From ca5a2a2d46d72c7d16dbec9398607449842376ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 26/65] fix: remove the event handler of a stopped watcher

---
 pkg/cache/view_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index bd96834..ff6f5de 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -580,7 +580,10 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	}
 
 	go func() {
-		<-ctx.Done()
+		select {
+		case <-ctx.Done():
+		case <-watcher.stopCh:
+		}
 
 		c.log.V(5).Info("stopping watcher", "gvk", objGVK.String())
 
-- 
2.43.0


From 31e94debb875eb66e2ba5fda6cf352877596c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 27/65] fix: do not share the old object of an update between
 event handlers

---
 pkg/cache/view_cache_informer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 78c5342..3edd77a 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -179,7 +179,7 @@ func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj,
 			handler.OnAdd(object.DeepCopy(newObj), false)
 			events++
 		case toolscache.Updated:
-			handler.OnUpdate(oldObj, object.DeepCopy(newObj))
+			handler.OnUpdate(object.DeepCopy(oldObj), object.DeepCopy(newObj))
 			events++
 		case toolscache.Deleted:
 			handler.OnDelete(object.DeepCopy(newObj))
-- 
2.43.0


From 5bd312f3212ccebc66615a0e1ba9280b696b4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 28/65] fix: map the resources of view groups instead of
 refusing them

---
 pkg/cache/restmapper.go      | 4 +++-
 pkg/cache/view_restmapper.go | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/restmapper.go b/pkg/cache/restmapper.go
index 9d16b4b..9279f51 100644
--- a/pkg/cache/restmapper.go
+++ b/pkg/cache/restmapper.go
@@ -7,6 +7,8 @@ import (
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/client-go/discovery"
 	"k8s.io/client-go/restmapper"
+
+	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
 )
 
 var _ meta.RESTMapper = &CompositeRESTMapper{}
@@ -140,5 +142,5 @@ func (m *CompositeRESTMapper) isViewGroup(group string) bool {
 		return cd.IsViewGroup(group)
 	}
 	// Fallback check
-	return group == "view.dcontroller.io"
+	return viewv1a1.IsViewGroup(group)
 }
diff --git a/pkg/cache/view_restmapper.go b/pkg/cache/view_restmapper.go
index b837b49..aeabf12 100644
--- a/pkg/cache/view_restmapper.go
+++ b/pkg/cache/view_restmapper.go
@@ -22,7 +22,7 @@ func NewViewRESTMapper() *ViewRESTMapper {
 
 // KindFor returns the Kind for the given view resource.
 func (m *ViewRESTMapper) KindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, error) {
-	if viewv1a1.IsViewGroup(resource.Group) {
+	if !viewv1a1.IsViewGroup(resource.Group) {
 		return schema.GroupVersionKind{}, fmt.Errorf("not a view group: %s", resource.Group)
 	}
 
@@ -47,7 +47,7 @@ func (m *ViewRESTMapper) KindsFor(resource schema.GroupVersionResource) ([]schem
 
 // ResourceFor returns the Resource for the given view input.
 func (m *ViewRESTMapper) ResourceFor(input schema.GroupVersionResource) (schema.GroupVersionResource, error) {
-	if viewv1a1.IsViewGroup(input.Group) {
+	if !viewv1a1.IsViewGroup(input.Group) {
 		return schema.GroupVersionResource{}, fmt.Errorf("not a view group: %s", input.Group)
 	}
 
@@ -70,7 +70,7 @@ func (m *ViewRESTMapper) ResourcesFor(input schema.GroupVersionResource) ([]sche
 
 // RESTMapping returns the RESTMapping for the given view GroupKind.
 func (m *ViewRESTMapper) RESTMapping(gk schema.GroupKind, versions ...string) (*meta.RESTMapping, error) {
-	if viewv1a1.IsViewGroup(gk.Group) {
+	if !viewv1a1.IsViewGroup(gk.Group) {
 		return nil, fmt.Errorf("not a view group: %s", gk.Group)
 	}
 
-- 
2.43.0


From 5776fece6b8437a27b9e513cc18e96fdb73c02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 29/65] fix: list every version of a view group once

---
 pkg/cache/view_discovery.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/view_discovery.go b/pkg/cache/view_discovery.go
index 4e0511e..6054dd3 100644
--- a/pkg/cache/view_discovery.go
+++ b/pkg/cache/view_discovery.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -79,15 +80,12 @@ func (d *ViewDiscovery) ServerGroups() (*metav1.APIGroupList, error) {
 
 	for gvk := range d.registeredViews {
 		gv := gvk.GroupVersion()
-		if _, exists := groupVersions[gv.Group]; !exists {
-			groupVersions[gv.Group] = []metav1.GroupVersionForDiscovery{}
-		}
 
 		// Check if this version already exists
-		for _, existing := range groupVersions[gv.Group] {
-			if existing.Version == gv.Version {
-				continue
-			}
+		if slices.ContainsFunc(groupVersions[gv.Group], func(existing metav1.GroupVersionForDiscovery) bool {
+			return existing.Version == gv.Version
+		}) {
+			continue
 		}
 
 		groupVersions[gv.Group] = append(groupVersions[gv.Group], metav1.GroupVersionForDiscovery{
-- 
2.43.0


From 79fee23d505f772dfb28143dc31c3caa653c87fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 30/65] fix: use the view cache given to the composite API

---
 pkg/cache/api.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/cache/api.go b/pkg/cache/api.go
index 0821d83..da8c2fe 100644
--- a/pkg/cache/api.go
+++ b/pkg/cache/api.go
@@ -73,6 +73,7 @@ func NewAPI(config *rest.Config, opts APIOptions) (*API, error) {
 	compositeCache, err := NewCompositeCache(config, CacheOptions{
 		Options:      opts.Options,
 		DefaultCache: opts.DefaultCache,
+		ViewCache:    opts.ViewCache,
 		Logger:       logger,
 	})
 	if err != nil {
-- 
2.43.0


From 2f7851eb1dd8cddb124e15210dd70b8fb36a9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 31/65] fix: refuse patches that move a view object

---
 pkg/cache/view_client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index ed1698c..87616da 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 
+	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
@@ -132,6 +133,12 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return err
 	}
 
+	// A patch must not move the object: the cache would keep both versions
+	if newObj.GroupVersionKind() != current.GroupVersionKind() ||
+		client.ObjectKeyFromObject(newObj) != client.ObjectKeyFromObject(current) {
+		return apierrors.NewBadRequest("a patch cannot change the kind, name or namespace of an object")
+	}
+
 	return c.cache.Update(current, newObj)
 }
 
-- 
2.43.0


From aa3b3e5662bd64cdc691b1762a9c37dec6efcb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 32/65] fix: route sub-resource requests by the kind of the
 object

---
 pkg/cache/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 21656aa..5213212 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -157,7 +157,7 @@ type compositeSubResourceClient struct {
 
 // Get returns the status on the given obj.
 func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource client.Object, opts ...client.SubResourceGetOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Get(ctx, obj, subResource, opts...)
 	}
 	return c.SubResourceClient.Get(ctx, obj, subResource, opts...)
@@ -165,7 +165,7 @@ func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource c
 
 // Create saves the status on the given obj.
 func (c *compositeSubResourceClient) Create(ctx context.Context, obj client.Object, subResource client.Object, opts ...client.SubResourceCreateOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Create(ctx, obj, subResource, opts...)
 	}
 	return c.SubResourceClient.Create(ctx, obj, subResource, opts...)
-- 
2.43.0


From ea01aeb1258e5c227b261a9cc8f186b46d4d3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:32 +0000
Subject: [PATCH 33/65] fix: pass on the options of informer requests

---
 pkg/cache/composite.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 18ae627..2193ce3 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -94,9 +94,9 @@ func (cc *CompositeCache) GetInformer(ctx context.Context, obj client.Object, op
 	cc.log.V(6).Info("get-informer", "gvk", gvk)
 
 	if viewv1a1.IsViewKind(gvk) {
-		return cc.viewCache.GetInformer(ctx, obj)
+		return cc.viewCache.GetInformer(ctx, obj, opts...)
 	}
-	return cc.defaultCache.GetInformer(ctx, obj)
+	return cc.defaultCache.GetInformer(ctx, obj, opts...)
 }
 
 // GetInformerForKind is similar to GetInformer, except that it takes a group-version-kind instead
@@ -105,9 +105,9 @@ func (cc *CompositeCache) GetInformerForKind(ctx context.Context, gvk schema.Gro
 	cc.log.V(6).Info("get-informer-for-kind", "gvk", gvk)
 
 	if viewv1a1.IsViewKind(gvk) {
-		return cc.viewCache.GetInformerForKind(ctx, gvk)
+		return cc.viewCache.GetInformerForKind(ctx, gvk, opts...)
 	}
-	return cc.defaultCache.GetInformerForKind(ctx, gvk)
+	return cc.defaultCache.GetInformerForKind(ctx, gvk, opts...)
 }
 
 // RemoveInformer removes an informer entry and stops it if it was running.
-- 
2.43.0


From c13706f11c9e1ce05ee4320271658771eecc0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:56 +0000
Subject: [PATCH 34/65] fix: fail native requests in headless mode instead of
 panicking

---
 pkg/cache/client.go    | 36 ++++++++++++++++++++++++++++++++++--
 pkg/cache/composite.go | 24 +++++++++++++++++++++++-
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 5213212..2db8eff 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -15,6 +15,8 @@ import (
 
 var _ client.Client = &CompositeClient{}
 
+var errNoNativeClient = errors.New("native Kubernetes resources unavailable: no native client")
+
 // CompositeClient is a controlller runtime client that uses a view cache to manage view resources
 // and delegates native resources to a default client.
 type CompositeClient struct {
@@ -85,6 +87,9 @@ func (c *CompositeClient) Create(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Create(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Create(ctx, obj, opts...)
 }
 
@@ -93,6 +98,9 @@ func (c *CompositeClient) Delete(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Delete(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Delete(ctx, obj, opts...)
 }
 
@@ -101,6 +109,9 @@ func (c *CompositeClient) Update(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Update(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Update(ctx, obj, opts...)
 }
 
@@ -110,6 +121,9 @@ func (c *CompositeClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return c.viewClient.Patch(ctx, obj, patch, opts...)
 	}
 
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Patch(ctx, obj, patch, opts...)
 }
 
@@ -118,6 +132,9 @@ func (c *CompositeClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.DeleteAllOf(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.DeleteAllOf(ctx, obj, opts...)
 }
 
@@ -143,10 +160,13 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
 func (c *CompositeClient) Status() client.SubResourceWriter {
-	return &compositeSubResourceClient{
+	status := &compositeSubResourceClient{
 		viewSubResourceClient: c.viewClient.SubResource("status"),
-		SubResourceClient:     c.SubResource("status"),
 	}
+	if c.Client != nil {
+		status.SubResourceClient = c.Client.SubResource("status")
+	}
+	return status
 }
 
 // compositeSubResourceClient implements a status client.
@@ -160,6 +180,9 @@ func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource c
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Get(ctx, obj, subResource, opts...)
 	}
+	if c.SubResourceClient == nil {
+		return errNoNativeClient
+	}
 	return c.SubResourceClient.Get(ctx, obj, subResource, opts...)
 }
 
@@ -168,6 +191,9 @@ func (c *compositeSubResourceClient) Create(ctx context.Context, obj client.Obje
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Create(ctx, obj, subResource, opts...)
 	}
+	if c.SubResourceClient == nil {
+		return errNoNativeClient
+	}
 	return c.SubResourceClient.Create(ctx, obj, subResource, opts...)
 }
 
@@ -176,6 +202,9 @@ func (c *compositeSubResourceClient) Update(ctx context.Context, obj client.Obje
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Update(ctx, obj, opts...)
 	}
+	if c.SubResourceClient == nil {
+		return errNoNativeClient
+	}
 	return c.SubResourceClient.Update(ctx, obj, opts...)
 }
 
@@ -185,5 +214,8 @@ func (c *compositeSubResourceClient) Patch(ctx context.Context, obj client.Objec
 		return c.viewSubResourceClient.Patch(ctx, obj, patch, opts...)
 	}
 
+	if c.SubResourceClient == nil {
+		return errNoNativeClient
+	}
 	return c.SubResourceClient.Patch(ctx, obj, patch, opts...)
 }
diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 2193ce3..c31fb29 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"context"
+	"errors"
 
 	"github.com/go-logr/logr"
 	"k8s.io/apimachinery/pkg/runtime/schema"
@@ -14,6 +15,8 @@ import (
 
 var _ cache.Cache = &CompositeCache{}
 
+var errNoNativeCache = errors.New("native Kubernetes resources unavailable: no native cache")
+
 // CompositeCache is a cache for storing view objects. It delegates native objects to a default
 // cache.
 type CompositeCache struct {
@@ -96,6 +99,9 @@ func (cc *CompositeCache) GetInformer(ctx context.Context, obj client.Object, op
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.GetInformer(ctx, obj, opts...)
 	}
+	if cc.defaultCache == nil {
+		return nil, errNoNativeCache
+	}
 	return cc.defaultCache.GetInformer(ctx, obj, opts...)
 }
 
@@ -107,6 +113,9 @@ func (cc *CompositeCache) GetInformerForKind(ctx context.Context, gvk schema.Gro
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.GetInformerForKind(ctx, gvk, opts...)
 	}
+	if cc.defaultCache == nil {
+		return nil, errNoNativeCache
+	}
 	return cc.defaultCache.GetInformerForKind(ctx, gvk, opts...)
 }
 
@@ -119,6 +128,9 @@ func (cc *CompositeCache) RemoveInformer(ctx context.Context, obj client.Object)
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.RemoveInformer(ctx, obj)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.RemoveInformer(ctx, obj)
 }
 
@@ -137,7 +149,8 @@ func (cc *CompositeCache) Start(ctx context.Context) error {
 
 // WaitForCacheSync waits for all the caches to sync. Returns false if it could not sync a cache.c
 func (cc *CompositeCache) WaitForCacheSync(ctx context.Context) bool {
-	return cc.viewCache.WaitForCacheSync(ctx) && cc.defaultCache.WaitForCacheSync(ctx)
+	return cc.viewCache.WaitForCacheSync(ctx) &&
+		(cc.defaultCache == nil || cc.defaultCache.WaitForCacheSync(ctx))
 }
 
 // IndexField adds an index with the given field name on the given object type.
@@ -146,6 +159,9 @@ func (cc *CompositeCache) IndexField(ctx context.Context, obj client.Object, fie
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.IndexField(ctx, obj, field, extractValue)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.IndexField(ctx, obj, field, extractValue)
 }
 
@@ -158,6 +174,9 @@ func (cc *CompositeCache) Get(ctx context.Context, key client.ObjectKey, obj cli
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.Get(ctx, key, obj, opts...)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.Get(ctx, key, obj, opts...)
 }
 
@@ -170,5 +189,8 @@ func (cc *CompositeCache) List(ctx context.Context, list client.ObjectList, opts
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.List(ctx, list, opts...)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.List(ctx, list, opts...)
 }
-- 
2.43.0


From ae821be3ed592bdeadc401daa5fc6b09153b591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:15 +0000
Subject: [PATCH 35/65] fix: route sub-resource clients by the kind of the
 object

---
 pkg/cache/client.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 2db8eff..b3a94ea 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -160,13 +160,19 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
 func (c *CompositeClient) Status() client.SubResourceWriter {
-	status := &compositeSubResourceClient{
-		viewSubResourceClient: c.viewClient.SubResource("status"),
+	return c.SubResource("status")
+}
+
+// SubResource returns a client for the given subresource that serves views from the viewcache and
+// native resources from the native client.
+func (c *CompositeClient) SubResource(subResource string) client.SubResourceClient {
+	sub := &compositeSubResourceClient{
+		viewSubResourceClient: c.viewClient.SubResource(subResource),
 	}
 	if c.Client != nil {
-		status.SubResourceClient = c.Client.SubResource("status")
+		sub.SubResourceClient = c.Client.SubResource(subResource)
 	}
-	return status
+	return sub
 }
 
 // compositeSubResourceClient implements a status client.
-- 
2.43.0


From e4ba30fec50a693d7826e959f121170cf6d6b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 36/65] fix: keep the registered views in the legacy discovery
 client

CompositeDiscoveryClient.WithLegacy built a new composite client with an empty
view registry when a native discovery client was set.
---
 pkg/cache/discovery.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/discovery.go b/pkg/cache/discovery.go
index 99f325c..e1ed72c 100644
--- a/pkg/cache/discovery.go
+++ b/pkg/cache/discovery.go
@@ -190,7 +190,11 @@ func (c *CompositeDiscoveryClient) OpenAPIV3() openapi.Client {
 // format.
 func (c *CompositeDiscoveryClient) WithLegacy() discovery.DiscoveryInterface {
 	if c.nativeDiscovery != nil {
-		return NewCompositeDiscoveryClient(c.nativeDiscovery.WithLegacy())
+		// Keep the view discovery, otherwise the registered views would disappear.
+		return &CompositeDiscoveryClient{
+			ViewDiscoveryInterface: c.ViewDiscoveryInterface,
+			nativeDiscovery:        c.nativeDiscovery.WithLegacy(),
+		}
 	}
 	// If no native discovery, return self (views don't have legacy concerns)
 	return c
-- 
2.43.0


From 6311def31221b8cb663d548da6df1989eb2bb436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 37/65] fix: make room for the initial list in the channel of a
 view watch

The initial objects are sent while Watch is still running, so nobody can receive
them yet: every object beyond the channel buffer was dropped after a second.
---
 pkg/cache/view_cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ff6f5de..d19b12e 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -541,8 +541,16 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	listOpts.ApplyOptions(opts)
 	labelSelector, fieldSelector, namespace := listOpts.LabelSelector, listOpts.FieldSelector, listOpts.Namespace
 
+	// The initial list is sent before the caller can receive anything, so it must fit into the
+	// channel.
+	indexer, err := c.GetCacheForKind(objGVK)
+	if err != nil {
+		return nil, err
+	}
+	initial := len(indexer.ListKeys())
+
 	watcher := &ViewCacheWatcher{
-		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
+		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer+initial),
 		stopCh:        make(chan struct{}),
 		labelSelector: labelSelector,
 		fieldSelector: fieldSelector,
-- 
2.43.0


From 83af422bee670ef69301f3702a3736f87bb9a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 38/65] fix: hold back events until a new handler has the
 initial list

A handler added to a view informer while an object was deleted could see the
deletion before the initial list that still contained the object, and keep it
forever.
---
 pkg/cache/view_cache_informer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 3edd77a..d9f80dc 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -59,7 +59,10 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 
 // AddEventHandler adds an event handler to the shared informer.
 func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
+	// Hold back the events until the initial list is delivered, otherwise an object that is changed
+	// or deleted in the meantime would be reported to the handler in its old state afterwards.
 	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	id := atomic.AddInt64(&c.handlerCounter, 1)
 	he := handlerEntry{
@@ -68,7 +71,6 @@ func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHand
 	}
 	c.handlers[id] = he
 	transform := c.transform
-	c.mutex.Unlock()
 
 	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", id,
 		"cache-size", len(c.cache.List()))
-- 
2.43.0


From 7361deb81c5f967d359f7ec9cd88f72d9cef03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 39/65] fix: announce the changes of a view in the order they
 are made

Two writers of the same view could store their objects in one order and announce
them in the other, leaving watchers with an object that is no longer stored.
---
 pkg/cache/view_cache.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index d19b12e..8b4544f 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -39,8 +39,10 @@ type ViewCache struct {
 	// When shared storage triggers events via Add/Update/Delete, it propagates them to all
 	// registered delegating informers, enabling cross-operator watch functionality.
 	delegatingInformers map[schema.GroupVersionKind][]*ViewCacheInformer
-	discovery           ViewDiscoveryInterface
-	logger, log         logr.Logger
+	// writers makes sure that the changes of a kind are announced in the order they are made.
+	writers     map[schema.GroupVersionKind]*sync.Mutex
+	discovery   ViewDiscoveryInterface
+	logger, log logr.Logger
 }
 
 // NewViewCache creates a new view cache that can store views from any operator.
@@ -54,6 +56,7 @@ func NewViewCache(opts CacheOptions) *ViewCache {
 		caches:              make(map[schema.GroupVersionKind]toolscache.Indexer),
 		informers:           make(map[schema.GroupVersionKind]*ViewCacheInformer),
 		delegatingInformers: make(map[schema.GroupVersionKind][]*ViewCacheInformer),
+		writers:             make(map[schema.GroupVersionKind]*sync.Mutex),
 		discovery:           NewViewDiscovery(),
 		logger:              logger,
 		log:                 logger.WithName("cache"),
@@ -230,6 +233,19 @@ func (c *ViewCache) RemoveInformer(ctx context.Context, obj client.Object) error
 	return nil
 }
 
+// writer returns the lock that must be held while changing an object of a kind and announcing the
+// change to the informers.
+func (c *ViewCache) writer(gvk schema.GroupVersionKind) *sync.Mutex {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if _, exists := c.writers[gvk]; !exists {
+		c.writers[gvk] = &sync.Mutex{}
+	}
+
+	return c.writers[gvk]
+}
+
 // Add inserts an object into the cache.
 func (c *ViewCache) Add(obj object.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
@@ -252,6 +268,10 @@ func (c *ViewCache) Add(obj object.Object) error {
 	// Make sure to have a valid UID.
 	object.WithUID(obj)
 
+	writer := c.writer(gvk)
+	writer.Lock()
+	defer writer.Unlock()
+
 	// Add object to the cache.
 	if err := cache.Add(obj); err != nil {
 		return err
@@ -304,6 +324,10 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 		return err
 	}
 
+	writer := c.writer(gvk)
+	writer.Lock()
+	defer writer.Unlock()
+
 	if err := cache.Update(newObj); err != nil {
 		return err
 	}
@@ -354,6 +378,10 @@ func (c *ViewCache) Delete(obj object.Object) error {
 		return err
 	}
 
+	writer := c.writer(gvk)
+	writer.Lock()
+	defer writer.Unlock()
+
 	existingObj, exists, err := cache.GetByKey(key)
 	if err != nil {
 		return err
-- 
2.43.0


From 883ae1f1180d2724656602e2b204c02343bbdb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 40/65] fix: stop serving the views dropped from an API group
 when it is registered again

---
 pkg/apiserver/registry.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index db83984..3f163fe 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"fmt"
+	"slices"
 
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -63,7 +64,14 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return fmt.Errorf("failed to add types to scheme: %w", err)
 	}
 
-	// 2. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
+	// 2. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup), dropping the
+	// GVKs registered earlier that are not part of the group any more.
+	for gvk := range s.groupGVKs[group] {
+		if !slices.Contains(gvks, gvk) {
+			s.removeStorage(gvk)
+		}
+	}
+
 	for _, gvk := range gvks {
 		resource, err := s.findAPIResource(gvk)
 		if err != nil {
@@ -113,18 +121,7 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 
 	// Remove storage from resourceHandler.
 	for gvk := range gvks {
-		resource, err := s.findAPIResource(gvk)
-		if err != nil {
-			continue
-		}
-
-		gvr := schema.GroupVersionResource{
-			Group:    gvk.Group,
-			Version:  gvk.Version,
-			Resource: resource.APIResource.Name,
-		}
-
-		s.resourceHandler.removeStorage(gvr)
+		s.removeStorage(gvk)
 	}
 
 	// Remove discovery handlers.
@@ -149,6 +146,20 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.log.Info("API group unregistered", "group", group)
 }
 
+// removeStorage removes the storage of a GVK from the resource handler.
+func (s *APIServer) removeStorage(gvk schema.GroupVersionKind) {
+	resource, err := s.findAPIResource(gvk)
+	if err != nil {
+		return
+	}
+
+	s.resourceHandler.removeStorage(schema.GroupVersionResource{
+		Group:    gvk.Group,
+		Version:  gvk.Version,
+		Resource: resource.APIResource.Name,
+	})
+}
+
 // registerDiscoveryHandlers creates and registers discovery handlers for a group.
 // This function is idempotent and can be called multiple times to update discovery info.
 func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupVersionKind) {
-- 
2.43.0


From e4201d0f8d5224b222b678dc14bd60662bf23ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 41/65] fix: report the failure to delete an object of a
 collection

---
 pkg/apiserver/storage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 600cb98..08f2e32 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strings"
 
@@ -274,19 +275,25 @@ func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteVal
 
 	list := listObj.(*unstructured.UnstructuredList)
 
-	// Delete each object.
+	// Delete each object: a failure does not prevent the rest from being deleted but it is reported.
+	var errs error
 	for _, item := range list.Items {
 		if deleteValidation != nil {
 			if err := deleteValidation(ctx, &item); err != nil {
+				errs = errors.Join(errs, err)
 				continue // Skip this item but continue with others
 			}
 		}
 
-		if err := s.delegatingClient.Delete(ctx, &item, &client.DeleteOptions{Raw: options}); err != nil {
+		if err := s.delegatingClient.Delete(ctx, &item, &client.DeleteOptions{Raw: options}); client.IgnoreNotFound(err) != nil {
 			s.log.Info("Failed to delete object", "item",
 				fmt.Sprintf("%s/%s", item.GetNamespace(), item.GetName()), "error", err.Error())
+			errs = errors.Join(errs, err)
 		}
 	}
+	if errs != nil {
+		return nil, apierrors.NewInternalError(fmt.Errorf("failed to delete some of %s: %w", s.gvr.String(), errs))
+	}
 
 	return list, nil
 }
-- 
2.43.0


From 62646be8ddf635ca929c6594199ba78faccefb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 42/65] fix: keep access tokens out of the request log

---
 pkg/apiserver/builder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 0eb4e28..ffdf6b8 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -168,10 +168,15 @@ func (s *APIServer) createServerConfig() (*genericapiserver.RecommendedConfig, e
 		// Add logging wrapper (outermost)
 		nextHandler := handler // Capture handler before reassignment to avoid infinite loop
 		handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
-			dump, err := httputil.DumpRequest(r, true) // true = include body
+			// The access token of the client must not show up in the log.
+			redacted := *r
+			redacted.Header = r.Header.Clone()
+			redacted.Header.Del("Authorization")
+			dump, err := httputil.DumpRequest(&redacted, true) // true = include body
 			if err != nil {
 				dump = []byte{}
 			}
+			r.Body = redacted.Body // the original has been read into the dump
 			s.log.Info("HTTP Request", "method", r.Method, "path", r.URL.Path, "content", string(dump))
 			nextHandler.ServeHTTP(w, r)
 		})
-- 
2.43.0


From 4b3efeb9d6ed9f5b81da3b8ac92ef79f81a45152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 43/65] fix: never leave a stale OpenAPI spec in the cache

---
 pkg/apiserver/openapi.go | 45 ++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/pkg/apiserver/openapi.go b/pkg/apiserver/openapi.go
index c2f7a98..68f52e7 100644
--- a/pkg/apiserver/openapi.go
+++ b/pkg/apiserver/openapi.go
@@ -15,30 +15,22 @@ import (
 func (s *APIServer) getOpenAPIv2Handler() openapicommon.GetOpenAPIDefinitions {
 	return func(ref openapicommon.ReferenceCallback) map[string]openapicommon.OpenAPIDefinition {
 		// Called by Kubernetes' OpenAPI system each time someone requests the spec
-		s.mu.RLock()
-		cachedOpenAPIDefs := s.cachedOpenAPIDefs
-		s.mu.RUnlock()
+		s.mu.Lock()
+		defer s.mu.Unlock()
 
-		// If cache is non-empty, return the cached spec
-		if cachedOpenAPIDefs != nil {
-			return cachedOpenAPIDefs
+		// If cache is empty, generate the spec: registering or unregistering a group in the
+		// meantime would leave a stale spec in the cache
+		if s.cachedOpenAPIDefs == nil {
+			s.cachedOpenAPIDefs = s.generateOpenAPIDefs(ref)
 		}
 
-		defs := s.generateOpenAPIDefs(ref)
-
-		s.mu.Lock()
-		s.cachedOpenAPIDefs = defs
-		s.mu.Unlock()
-
-		return defs
+		return s.cachedOpenAPIDefs
 	}
 }
 
-// generateOpenAPIDefs generates the OpenAPIv2 specs for the dynamic handler.
+// generateOpenAPIDefs generates the OpenAPIv2 specs for the dynamic handler. The caller must hold the
+// lock.
 func (s *APIServer) generateOpenAPIDefs(ref openapicommon.ReferenceCallback) map[string]openapicommon.OpenAPIDefinition {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
 	// Rebuild the spec and set cache
 	var gvks []schema.GroupVersionKind
 	for _, groupGVKs := range s.groupGVKs {
@@ -77,21 +69,16 @@ func (s *APIServer) generateOpenAPIDefs(ref openapicommon.ReferenceCallback) map
 func (s *APIServer) getOpenAPIv3Handler() openapicommon.GetOpenAPIDefinitions {
 	return func(ref openapicommon.ReferenceCallback) map[string]openapicommon.OpenAPIDefinition {
 		// Called by Kubernetes' OpenAPI system each time someone requests the spec
-		s.mu.RLock()
-		cachedOpenAPIV3Defs := s.cachedOpenAPIV3Defs
-		s.mu.RUnlock()
+		s.mu.Lock()
+		defer s.mu.Unlock()
 
-		// If cache is non-empty, return the cached spec
-		if cachedOpenAPIV3Defs != nil {
-			return cachedOpenAPIV3Defs
+		// If cache is empty, generate the spec: registering or unregistering a group in the
+		// meantime would leave a stale spec in the cache
+		if s.cachedOpenAPIV3Defs == nil {
+			s.cachedOpenAPIV3Defs = s.generateOpenAPIDefs(ref)
 		}
 
-		defs := s.generateOpenAPIDefs(ref)
-		s.mu.Lock()
-		s.cachedOpenAPIV3Defs = defs
-		s.mu.Unlock()
-
-		return defs
+		return s.cachedOpenAPIV3Defs
 	}
 }
 
-- 
2.43.0


From 1a513cc393629159bf68b8b5633d795426cb5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 44/65] fix: start an API server only once

---
 pkg/apiserver/apiserver.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 8874cee..c3e75cb 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -133,6 +133,7 @@ func (s *APIServer) GetConfig() *rest.Config {
 func (s *APIServer) Start(ctx context.Context) error {
 	s.mu.Lock()
 	running := s.running
+	s.running = true
 	s.mu.Unlock()
 
 	if running {
@@ -147,9 +148,6 @@ func (s *APIServer) Start(ctx context.Context) error {
 func (s *APIServer) runServerInstance(ctx context.Context) error {
 	s.log.Info("starting API server", "https-addr", s.GetServerAddress(), "http-addr", s.GetInsecureServerAddress())
 
-	s.mu.Lock()
-	s.running = true
-	s.mu.Unlock()
 	defer func() {
 		s.mu.Lock()
 		s.running = false
-- 
2.43.0


From 5561c62f3acfa845dd6c1e95a1b0f2048e23d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 45/65] fix: fail the start command when the operator
 controller fails

A failure to run the operator controller (say, because the address of the
metrics or the probe endpoint is taken, or leadership is lost) was only
logged and the command exited with success.
---
 main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main.go b/main.go
index 1976a8b..34c465a 100644
--- a/main.go
+++ b/main.go
@@ -312,6 +312,7 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 	setupLog.Info("starting the operator controller")
 	if err := c.Start(ctx); err != nil {
 		setupLog.Error(err, "operator error")
+		return fmt.Errorf("operator error: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 1fdbb2e10d0fb268b31bd851de543bb360d70623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 46/65] fix: let @none hold when no element satisfies the
 condition

---
 pkg/expression/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index ae100ff..d551274 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -564,7 +564,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, errors.New("invalid arguments: expected a list")
 			}
 
-			v := false
+			v := true
 			for _, input := range list {
 				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
 				if err != nil {
-- 
2.43.0


From c5b25c93421b6e301813b23dd4d40994fbfdb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 47/65] fix: check the number of arguments of @map

---
 pkg/expression/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index d551274..8680280 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -641,6 +641,11 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, NewExpressionError(e, err)
 			}
 
+			if len(args) != 2 {
+				return nil, NewExpressionError(e,
+					errors.New("invalid arguments: expected 2 arguments"))
+			}
+
 			// function
 			exp := args[0]
 
-- 
2.43.0


From 857ad1149b6c19039485325f3bc0969d7321742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 48/65] fix: refuse an empty range in @rnd

---
 pkg/expression/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 8680280..1083381 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -767,7 +767,10 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			min := args[0]
 			max := args[1]
-			v := int64(rand.Intn(int(max-min)) + int(min)) //nolint:gosec
+			if max <= min || max-min <= 0 {
+				return nil, NewExpressionError(e, errors.New("invalid range: expected [min, max] with min < max"))
+			}
+			v := rand.Int63n(max-min) + min //nolint:gosec
 			ctx.Log.V(8).Info("eval ready", "expression", e.String(), "args", args, "result", v)
 			return v, nil
 
-- 
2.43.0


From fe62ba042ec2b5f56789c611833252876cdf8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 49/65] fix: refuse a missing argument list in list operators

---
 pkg/expression/converter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 12185dc..71c8fdd 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -298,6 +298,7 @@ func AsExpOrExpList(d any) ([]Expression, error) {
 	if !ok {
 		var expp *Expression
 		expp, ok = d.(*Expression)
+		ok = ok && expp != nil
 		if ok {
 			exp = *expp
 		}
-- 
2.43.0


From 4a753c22dab1306a0b8223bd6900011387ac58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 50/65] fix: accept an empty key in a literal map

---
 pkg/expression/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index d3be337..7312bdd 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -54,7 +54,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 				op = k
 				break
 			}
-			if string(op[0]) == "@" {
+			if len(op) > 0 && string(op[0]) == "@" {
 				exp := cv[op]
 				*e = Expression{Op: op, Arg: &exp}
 				return nil
-- 
2.43.0


From 981b673145886758db99054f56ae88f9cacb83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 51/65] fix: keep the arguments of @any when marshaling an
 expression

---
 pkg/expression/marshaler.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 7312bdd..5005f33 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -76,9 +76,6 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 	}
 
 	switch e.Op {
-	case "@any":
-		return json.Marshal(e.Literal)
-
 	case "@bool":
 		if e.Arg != nil {
 			// keep the op for a correct round-trip and possible side-effects (conversion)
-- 
2.43.0


From 8471b03677c4e5e3a8ff5d744dd2d7f17fd05280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 52/65] fix: convert floating-point numbers to strings

---
 pkg/expression/converter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 71c8fdd..2ab2c52 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -81,8 +81,12 @@ func AsString(d any) (string, error) {
 	switch reflect.ValueOf(d).Kind() { //nolint:exhaustive
 	case reflect.String:
 		return reflect.ValueOf(d).String(), nil
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return fmt.Sprintf("%d", d), nil
+	case reflect.Float32, reflect.Float64:
+		return strconv.FormatFloat(reflect.ValueOf(d).Float(), 'f', -1, 64), nil
+	case reflect.Complex64, reflect.Complex128:
+		return fmt.Sprintf("%v", d), nil
 	}
 
 	return "", fmt.Errorf("argument is not a string: %s", util.Stringify(d))
-- 
2.43.0


From 47c35071aab2e31d46355c51d1a07e28d377aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 53/65] fix: create floating-point literals with a valid
 operator

---
 pkg/expression/literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/literal.go b/pkg/expression/literal.go
index b75b84b..712fd94 100644
--- a/pkg/expression/literal.go
+++ b/pkg/expression/literal.go
@@ -13,7 +13,7 @@ func NewLiteralExpression(value any) (Expression, error) {
 	case string:
 		op = "@string"
 	case float32, float64:
-		op = "float"
+		op = "@float"
 	default:
 		return Expression{}, fmt.Errorf("cannot create a literal expression from an "+
 			"argument %#v", value)
-- 
2.43.0


From 823f7a3d24f5a5872b8f82227c4907446465e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 54/65] fix: keep floating-point literals apart from integers
 when marshaling

---
 pkg/expression/marshaler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 5005f33..16d84b0 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -1,6 +1,7 @@
 package expression
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -110,7 +111,11 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return []byte(""), err
 		}
-		return json.Marshal(v)
+		b, err := json.Marshal(v)
+		if err == nil && !bytes.ContainsAny(b, ".eE") {
+			b = append(b, ".0"...) // would be read back as an integer otherwise
+		}
+		return b, err
 
 	case "@string":
 		if e.Arg != nil {
-- 
2.43.0


From 1bb2e98ccafe32bbfc35c44601aac4095ff8491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 55/65] fix: convert values of named string types to numbers

---
 pkg/expression/converter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 2ab2c52..d8f7163 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -138,7 +138,7 @@ func AsInt(d any) (int64, error) {
 	}
 
 	if reflect.ValueOf(d).Kind() == reflect.String {
-		i, err := strconv.ParseInt(d.(string), 10, 64)
+		i, err := strconv.ParseInt(reflect.ValueOf(d).String(), 10, 64)
 		if err == nil {
 			return i, nil
 		}
@@ -195,7 +195,7 @@ func AsFloat(d any) (float64, error) {
 	}
 
 	if reflect.ValueOf(d).Kind() == reflect.String {
-		f, err := strconv.ParseFloat(d.(string), 64)
+		f, err := strconv.ParseFloat(reflect.ValueOf(d).String(), 64)
 		if err == nil {
 			return f, nil
 		}
-- 
2.43.0


From 2eb490c63ba7fac86c2a732a7317049865b514af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 56/65] fix: accept null and the empty string as literal
 expressions

---
 pkg/expression/marshaler.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 16d84b0..afd9c25 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -10,6 +10,12 @@ import (
 // UnmarshalJSON de-serializes an expression from JSON.
 func (e *Expression) UnmarshalJSON(b []byte) error {
 	// cut raw content
+	// null: evaluates to nil
+	if string(bytes.TrimSpace(b)) == "null" {
+		*e = Expression{Op: "@noop"}
+		return nil
+	}
+
 	// try to unmarshal as a bool terminal expression
 	bv := false
 	if err := json.Unmarshal(b, &bv); err == nil {
@@ -33,7 +39,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 
 	// try to unmarshal as a string terminal expression
 	sv := ""
-	if err := json.Unmarshal(b, &sv); err == nil && sv != "" {
+	if err := json.Unmarshal(b, &sv); err == nil {
 		*e = Expression{Op: "@string", Literal: sv}
 		return nil
 	}
@@ -129,6 +135,13 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		}
 		return json.Marshal(v)
 
+	case "@noop":
+		if e.Arg != nil {
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
+		}
+		return []byte("null"), nil
+
 	case "@list":
 		if e.Arg != nil {
 			return json.Marshal(e.Arg)
-- 
2.43.0


From 1b2e3e6eec523c68a65ec7baae204dc83f28ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 57/65] fix: refuse malformed requirements in label selectors
 instead of ignoring them

---
 pkg/expression/selector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/selector.go b/pkg/expression/selector.go
index 3dc796f..360aac0 100644
--- a/pkg/expression/selector.go
+++ b/pkg/expression/selector.go
@@ -57,7 +57,7 @@ func convertToLabelSelector(selectorMap map[string]any) (*metav1.LabelSelector,
 			for _, expr := range matchExpressions {
 				exprMap, ok := expr.(map[string]any)
 				if !ok {
-					continue
+					return nil, fmt.Errorf("invalid requirement in label selector: %v", expr)
 				}
 
 				key, _ := exprMap["key"].(string)
-- 
2.43.0


From 900ea3b8c286f04332f5447ff520b81a09b97b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 58/65] fix: merge lists without writing into the list of the
 source document

---
 pkg/object/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/object/utils.go b/pkg/object/utils.go
index de71d73..02e029e 100644
--- a/pkg/object/utils.go
+++ b/pkg/object/utils.go
@@ -2,6 +2,7 @@ package object
 
 import (
 	"fmt"
+	"slices"
 
 	appsv1 "k8s.io/api/apps/v1"
 	corev1 "k8s.io/api/core/v1"
@@ -116,7 +117,8 @@ func MergeAny(a, b any) (any, error) {
 		return b, nil
 	case []any:
 		if va, ok := a.([]any); ok {
-			return append(va, vb...), nil
+			// never append in place: the list may belong to the document being evaluated
+			return append(slices.Clip(va), vb...), nil
 		}
 		return vb, nil
 	case map[string]any:
-- 
2.43.0


From 20b5cfea62e7125b3ca8076725295f4306881fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 59/65] fix: refuse ranges too large to be allocated instead of
 panicking

---
 pkg/expression/expression.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 1083381..ef9181d 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -43,6 +43,9 @@ import (
 	"k8s.io/apimachinery/pkg/util/json"
 )
 
+// maxRangeSize is the largest number of elements @range produces.
+const maxRangeSize = 1 << 24
+
 // EvalCtx defines the context for a running evaluation.
 type EvalCtx struct {
 	Object, Subject any
@@ -1141,7 +1144,11 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 			if args[0] > args[1] {
 				args[0] = args[1]
 			}
-			result := make([]any, 0, args[1]-args[0])
+			size := args[1] - args[0]
+			if size < 0 || size > maxRangeSize {
+				return nil, NewExpressionError(e, fmt.Errorf("range [%d, %d] too large", args[0], args[1]))
+			}
+			result := make([]any, 0, size)
 			for i := args[0]; i < args[1]; i++ {
 				result = append(result, i)
 			}
-- 
2.43.0


From 903bf49b389470016ef30eff42bba6d3361437d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:38 +0000
Subject: [PATCH 60/65] fix: accept names and namespaces of named string types
 instead of panicking

---
 pkg/pipeline/zset_adaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 6fcbe8d..9b28aac 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -147,7 +147,7 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 				return nil, NewInvalidObjectError(fmt.Sprintf("metadata/namespace must be "+
 					"a string (current value %q)", namespace))
 			}
-			namespaceStr = namespace.(string)
+			namespaceStr = reflect.ValueOf(namespace).String()
 			metaMap["namespace"] = namespaceStr
 		}
 
@@ -160,7 +160,7 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 			return nil, NewInvalidObjectError(fmt.Sprintf("metadata/name must be a string "+
 				"(current value %q)", name))
 		}
-		nameStr := name.(string)
+		nameStr := reflect.ValueOf(name).String()
 		if nameStr == "" {
 			return nil, NewInvalidObjectError("empty metadata/name in result")
 		}
-- 
2.43.0


From b9d66c8f2f4b972b828e368f0bb92bd79bfa5b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:38 +0000
Subject: [PATCH 61/65] fix: keep the default period when the configured one is
 not positive instead of panicking

---
 pkg/reconciler/source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/reconciler/source.go b/pkg/reconciler/source.go
index 952c4bf..2f5b3f4 100644
--- a/pkg/reconciler/source.go
+++ b/pkg/reconciler/source.go
@@ -214,7 +214,7 @@ func NewPeriodicSource(mgr manager.Manager, operator string, s opv1a1.Source) So
 		var params map[string]interface{}
 		if err := json.Unmarshal(s.Parameters.Raw, &params); err == nil {
 			if periodStr, ok := params["period"].(string); ok {
-				if d, err := time.ParseDuration(periodStr); err == nil {
+				if d, err := time.ParseDuration(periodStr); err == nil && d > 0 {
 					src.period = d
 				}
 			}
-- 
2.43.0


From f919dc68318adfbb3813b7b52a6b7ff2d7ea2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:10 +0000
Subject: [PATCH 62/65] fix: keep @list and @dict with an argument when
 marshaling an expression

---
 pkg/expression/marshaler.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index afd9c25..157749b 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -144,7 +144,8 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@list":
 		if e.Arg != nil {
-			return json.Marshal(e.Arg)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 		es, ok := e.Literal.([]Expression)
 		if !ok {
@@ -154,8 +155,8 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@dict":
 		if e.Arg != nil {
-			// can this ever happen?
-			return json.Marshal(e.Arg)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 
 		es, ok := e.Literal.(map[string]Expression)
-- 
2.43.0


From 65d7ffc20ec26474add8f5812de784177dcd578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:53 +0000
Subject: [PATCH 63/65] fix: restore native groups that contain dots from the
 kinds of views

---
 pkg/api/view/v1alpha1/group_version.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 1c8e43b..55e4740 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -48,18 +48,21 @@ func MapFromView(gvk schema.GroupVersionKind) (schema.GroupVersionKind, error) {
 	if !IsViewGroup(gvk.Group) {
 		return schema.GroupVersionKind{}, errors.New("not a view resource")
 	}
-	ps := strings.SplitN(gvk.Group, ".", 3)
-	if len(ps) != 3 {
+	// native groups may contain dots, versions and operator names do not
+	native, found := strings.CutSuffix(gvk.Group, "."+Group(GetOperator(gvk)))
+	i := strings.LastIndex(native, ".")
+	if !found || i < 0 {
 		return schema.GroupVersionKind{}, errors.New("invalid view resource")
 	}
+	group, version := native[:i], native[i+1:]
 	// un-specialcase corev1
-	if ps[0] == "core" {
-		ps[0] = ""
+	if group == "core" {
+		group = ""
 	}
 
 	return schema.GroupVersionKind{
-		Group:   ps[0],
-		Version: ps[1],
+		Group:   group,
+		Version: version,
 		Kind:    gvk.Kind,
 	}, nil
 }
-- 
2.43.0


From a12ca9c1e260fb3af71a2b8d1d7df6f70bc6551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:16 +0000
Subject: [PATCH 64/65] fix: copies of pipeline operations shared the arguments
 of their expressions with the original

---
 pkg/api/operator/v1alpha1/pipeline_types.go | 10 +++++-----
 pkg/expression/marshaler.go                 | 10 ++++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/api/operator/v1alpha1/pipeline_types.go b/pkg/api/operator/v1alpha1/pipeline_types.go
index cf01c5b..5fa9a90 100644
--- a/pkg/api/operator/v1alpha1/pipeline_types.go
+++ b/pkg/api/operator/v1alpha1/pipeline_types.go
@@ -117,15 +117,15 @@ func deepCopyPipelineOp(op PipelineOp) PipelineOp {
 
 	switch v := op.(type) {
 	case *JoinOp:
-		return &JoinOp{Expression: v.Expression}
+		return &JoinOp{Expression: *v.Expression.DeepCopy()}
 	case *SelectionOp:
-		return &SelectionOp{Expression: v.Expression}
+		return &SelectionOp{Expression: *v.Expression.DeepCopy()}
 	case *ProjectionOp:
-		return &ProjectionOp{Expression: v.Expression}
+		return &ProjectionOp{Expression: *v.Expression.DeepCopy()}
 	case *UnwindOp:
-		return &UnwindOp{Expression: v.Expression}
+		return &UnwindOp{Expression: *v.Expression.DeepCopy()}
 	case *GatherOp:
-		return &GatherOp{Expression: v.Expression}
+		return &GatherOp{Expression: *v.Expression.DeepCopy()}
 	default:
 		return nil
 	}
diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 157749b..cc7a2f4 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -212,6 +212,16 @@ func (e *Expression) DeepCopyInto(out *Expression) {
 	}
 }
 
+// DeepCopy creates a deep copy of an expression.
+func (e *Expression) DeepCopy() *Expression {
+	if e == nil {
+		return nil
+	}
+	out := new(Expression)
+	e.DeepCopyInto(out)
+	return out
+}
+
 // unpackList unpacks the first-level list, if any.
 func unpackList(a any) []any {
 	v := reflect.ValueOf(a)
-- 
2.43.0


From fe1def224b9ae5cf4e4a8800126790a74e3b8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 65/65] fix: the labels column of tables listed labels in
 random order, and random ones if there are many

---
 pkg/apiserver/storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 08f2e32..c61753d 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/go-logr/logr"
@@ -552,6 +553,7 @@ func formatLabels(labels map[string]string) string {
 	for k, v := range labels {
 		pairs = append(pairs, fmt.Sprintf("%s=%s", k, v))
 	}
+	sort.Strings(pairs)
 
 	// Limit display to avoid excessive width.
 	if len(pairs) > 3 {
-- 
2.43.0

