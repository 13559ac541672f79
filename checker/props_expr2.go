package main

import "strings"

func init() {
	register("E03", "abstract fault injection at every call of the expression evaluator that can fail; reading the same value in another way is a valid answer to a failed conversion", func(k *K) {
		checkFaults(k, &faultSpec{rule: "error propagation", roots: k.faultRoots("pkg/expression"),
			alternative: func(n, m string) bool {
				return n == "json.Unmarshal" && m == n || strings.HasPrefix(n, "expression.As") && strings.HasPrefix(m, "expression.As")
			}})
		k.atLeast("error propagation", 40)
	})
}
