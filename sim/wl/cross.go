package wl

func init() {
	reads := func(g *Gen) {
		g.FaultR, g.Nest, g.MapOrd = g.Pick(15, 40, 70), g.Pick(10, 30, 60), g.Pick(0, 50)
	}
	Props["C17"] = []Use{
		{WL: "hash", Weight: 4, Tune: reads}, {WL: "tree", Weight: 5, Tune: reads}, {WL: "cow", Weight: 2, Tune: reads},
		{WL: "interval", Weight: 3, Tune: reads}, {WL: "multimap", Weight: 4, Tune: reads}, {WL: "bimap", Weight: 2, Tune: reads},
		{WL: "rope", Weight: 1, Tune: reads}, {WL: "queue", Weight: 1, Tune: reads}, {WL: "list", Weight: 2, Tune: reads},
		{WL: "setalg", Weight: 2, Tune: reads}, {WL: "cache", Weight: 2, Tune: reads}, {WL: "heap", Weight: 1, Tune: reads},
		{WL: "trie", Weight: 2, Tune: reads}, {WL: "ulist", Weight: 1, Tune: reads}, {WL: "stack", Weight: 1, Tune: reads},
	}
	writes := func(g *Gen) {
		g.FaultW, g.FaultR, g.Nest, g.MapOrd = g.Pick(10, 30, 60), g.Pick(0, 10), g.Pick(0, 5), g.Pick(0, 50)
	}
	Props["C18"] = []Use{
		{WL: "kvfault", Weight: 6, Tune: writes}, {WL: "cow", Weight: 3, Tune: writes},
		{WL: "multimap", Weight: 4, Tune: writes}, {WL: "heap", Weight: 2, Tune: writes},
	}
	keep := func(g *Gen) { g.Keep, g.MapOrd = g.Pick(30, 60, 90), g.Pick(0, 50) }
	Props["C19"] = []Use{
		{WL: "trie", Weight: 2, Tune: keep}, {WL: "interval", Weight: 2, Tune: keep}, {WL: "multimap", Weight: 3, Tune: keep},
		{WL: "queue", Weight: 2, Tune: keep}, {WL: "setalg", Weight: 2, Tune: keep}, {WL: "prope", Weight: 2, Tune: keep},
	}
}
