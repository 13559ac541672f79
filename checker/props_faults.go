package main

func init() {
	register("P08", "abstract fault injection over every call site in the pipeline that can return an error: every path on which the call fails must return a non-nil error", func(k *K) {
		checkFaults(k, &faultSpec{rule: "error propagation", roots: k.faultRoots("pkg/pipeline"),
			skip: map[string]string{
				"cache.Store.Get": "computing the key of an unstructured object cannot fail, a missing object is not an error",
			}})
		k.atLeast("error propagation", 25)
	})
	register("R07", "abstract fault injection over the sources, targets, predicates and controllers: every failing call must end in a non-nil error", func(k *K) {
		checkFaults(k, &faultSpec{rule: "error propagation", roots: k.faultRoots("pkg/reconciler", "pkg/predicate", "pkg/controller"),
			skip: map[string]string{
				"unstructured.NestedMap":         "content that is not a map is passed over",
				"unstructured.NestedFieldNoCopy": "content that is not a map is passed over",
				"unstructured.NestedFieldCopy":   "content that is not a map is passed over",
				"unstructured.SetNestedMap":      "content that is not a map is passed over",
				"unstructured.SetNestedField":    "content that is not a map is passed over",
				"json.Unmarshal":                 "decoding the specification: malformed optional parameters select the default",
				"json.Marshal":                   "encoding the specification",
				"time.ParseDuration":             "malformed optional parameters select the default",
			},
			tolerated: map[string]string{
				"|client.Client.Create": "a failed creation falls back to an update, whose outcome decides (R06)",
				"controller.DeclarativeController.GetGVKs|reconciler.Source.GetGVK": "reported when the controller was created",
				"controller.DeclarativeController.GetGVKs|reconciler.Target.GetGVK": "reported when the controller was created",
			},
			except: map[string]string{
				"|client.Client.Get|errors.IsNotFound":             "a missing object is created, or there is nothing to remove",
				"|client.Client.Get|client.IgnoreNotFound":         "a missing object is created, or there is nothing to remove",
				"|client.Client.Delete|errors.IsNotFound":          "a missing object is already deleted",
				"|client.Client.Delete|client.IgnoreNotFound":      "a missing object is already deleted",
				"|reconciler.Update|errors.IsNotFound":             "an object deleted meanwhile needs no patch",
				"|reconciler.Update|client.IgnoreNotFound":         "an object deleted meanwhile needs no patch",
				"|reconciler.CreateOrUpdate|errors.IsNotFound":     "an object deleted meanwhile",
				"|reconciler.CreateOrUpdate|client.IgnoreNotFound": "an object deleted meanwhile",
			},
		})
		k.atLeast("error propagation", 25)
	})
}
