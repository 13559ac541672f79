package main

func init() {
	register("V05", "locks cache", func(k *K) {
		checkLocks(k, []string{"pkg/cache"}, []*guardSpec{
			{typ: "cache.ViewCache", mutex: "mu", fields: []string{"caches", "informers", "delegatingInformers"}},
			{typ: "cache.ViewCacheInformer", mutex: "mutex", fields: []string{"handlers", "transform"}},
			{typ: "cache.ViewCacheWatcher", mutex: "mutex", fields: []string{"stopped"}},
			{typ: "cache.DelegatingViewCache", mutex: "mu", fields: []string{"informers"}},
			{typ: "cache.ViewDiscovery", mutex: "mu", fields: []string{"registeredViews"}},
		})
	})
	register("P01", "locks pipeline", func(k *K) {
		checkLocks(k, []string{"pkg/pipeline"}, []*guardSpec{
			{typ: "pipeline.Pipeline", mutex: "mu", fields: []string{"sourceCache", "targetCache", "executor", "snapshotGraph", "snapshotExecutor"}},
		}, "pipeline.Pipeline.ConvertDeltaToZSet", "pipeline.Pipeline.ConvertZSetToDelta", "pipeline.Pipeline.Reconcile")
	})
	register("O01", "locks op controller", func(k *K) {
		checkLocks(k, []string{"pkg/kubernetes/controllers"}, []*guardSpec{
			{typ: "controllers.OpController", mutex: "mu", fields: []string{"operators", "started", "ctx", "apiServer"}},
			{typ: "controllers.opEntry", class: "controllers.OpController.mu", fields: []string{"ctx", "cancel"}},
		})
	})
	register("O03", "locks reporter", func(k *K) {
		checkLocks(k, []string{"pkg/controller"}, []*guardSpec{
			{typ: "controller.errorReporter", mutex: "mu", fields: []string{"errorStack", "critical"}},
		})
	})
	register("S07", "locks apiserver", func(k *K) {
		checkLocks(k, []string{"pkg/apiserver"}, []*guardSpec{
			{typ: "apiserver.APIServer", mutex: "mu", fields: []string{"groupGVKs", "cachedOpenAPIDefs", "cachedOpenAPIV3Defs", "running"}},
			{typ: "apiserver.dynamicGroupHandler", mutex: "mu", fields: []string{"handlers"}},
			{typ: "apiserver.dynamicVersionHandler", mutex: "mu", fields: []string{"handlers"}},
			{typ: "apiserver.resourceHandler", mutex: "storageLock", atomicStore: []string{"storage"}},
		})
	})
}
