package main

import "math"

func floatOf(v Value, k kindT) float64 {
	if k.w == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

func init() {
	reg(func(w *Worker, a []Value) Value {
		if v, ok := w.eng.params[w.strArg(a[0])]; ok {
			return intV(v)
		}
		return a[1]
	}, rtPkg+".Param")
	reg(func(w *Worker, a []Value) Value { return w.orV(w.notV(a[0]), a[1]) }, rtPkg+".Implies")
}
