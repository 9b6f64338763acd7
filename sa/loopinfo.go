package main

import "golang.org/x/tools/go/ssa"

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l := loopCache[fn]; l != nil {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	loopCache[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	for _, l := range li.byHeader {
		for _, m := range li.byHeader {
			if m != l && m.blocks[l.header] && (l.parent == nil || l.parent.blocks[m.header]) {
				l.parent = m
			}
		}
	}
	return li
}
