package wl

import "verifsim/engine"

// isoSpecs are the operations of a box on a chosen handle, plus those on handles.
// skip lists operations that need not be here.
func isoSpecs(specs []Spec, skip ...string) []Spec {
	var r []Spec
	for _, s := range specs {
		ok := s.K[0] == 'w' || s.K[0] == 'r'
		for _, k := range skip {
			ok = ok && s.K != k
		}
		if ok {
			r = append(r, s)
		}
	}
	return append(r,
		Spec{K: "wcopy", W: 24, SW: 8, Args: argBM, NoF: true},
		Spec{K: "wdrop", W: 2, Args: argBM, NoF: true},
		Spec{K: "wsend", W: 6, Args: argBM, NoF: true},
		Spec{K: "wtake", W: 6, Args: argBM, NoF: true})
}

// isoArr makes an array's operations available under the read/write interface.
type isoArr struct{ *arrBox }

func (b isoArr) write(t *Task, op *Op) { b.do(t, op) }
func (b isoArr) read(t *Task, op *Op)  { b.do(t, op) }
func (b isoArr) dup(t *Task) copyable  { return isoArr{b.arrBox.dup(t).(*arrBox)} }

func registerIso(name string, pkgs []string, specs []Spec, cfg func(g *Gen), mk func(r *engine.Run) copyable) {
	register(&WL{Name: name, Pkgs: pkgs, Gen: func(g *Gen) {
		cfg(g)
		g.ops(specs, 4, 24)
		if len(g.P.Tasks) == 1 {
			g.P.Tasks = append(g.P.Tasks, nil)
		}
		g.set("copies", 1+g.Intn(2*len(g.P.Tasks)))
		fillIso(g)
	}, New: func(r *engine.Run) engine.Instance { return newIso(r, mk(r)) }})
}

func init() {
	registerIso("isoqueue", []string{"queue", "list"}, isoSpecs(queueSpecs), genFifoCfg,
		func(r *engine.Run) copyable { return newQueueBox(r) })
	registerIso("isostack", []string{"stack"}, isoSpecs(stackSpecs), genFifoCfg,
		func(r *engine.Run) copyable { return newStackBox(r) })
	registerIso("isobimap", []string{"bimap"}, isoSpecs(bmSpecs), genBMCfg,
		func(r *engine.Run) copyable { return newBmBox(r) })
	registerIso("isoarray", []string{"array2d"}, isoSpecs(arrSpecs), genArrCfg,
		func(r *engine.Run) copyable { return isoArr{newArrBox(r)} })
	registerIso("isoset", []string{"set", "hashset", "mapset", "hashmap"}, isoSpecs(setSpecs, "rconst", "rstr"), genSetCfg, mkSetBox)
	Props["C03"] = []Use{
		{WL: "isoqueue", Weight: 2}, {WL: "isostack", Weight: 2}, {WL: "isoarray", Weight: 2},
		{WL: "isobimap", Weight: 2, Tune: func(g *Gen) { g.MapOrd = 50 }},
		{WL: "isoset", Weight: 3, Tune: func(g *Gen) { g.MapOrd = 60 }},
	}
}
