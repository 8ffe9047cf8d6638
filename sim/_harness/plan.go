package harness

import "verifsim/plan"

type (
	Doc   = plan.Doc
	Op    = plan.Op
	Phase = plan.Phase
	Env   = plan.Env
	Sched = plan.Sched
	Plan  = plan.Plan
	Viol  = plan.Viol
)

const (
	opCall  = plan.OpCall
	opKeep  = plan.OpKeep
	opCheck = plan.OpCheck
	opScrib = plan.OpScrib
	opAll   = plan.OpAll
	opForce = plan.OpForce
	opWrite = plan.OpWrite
	opSync  = plan.OpSync
	opRead  = plan.OpRead
	opBatch = plan.OpBatch
	opPause = plan.OpPause
	opPlain = plan.OpPlain
	opGrow  = plan.OpGrow
	opQuick = plan.OpQuick
	opBusy  = plan.OpBusy
)

func scriptDoc(s *Script) *Doc {
	d := &Doc{Lead: s.Lead}
	for i := range s.Stmts {
		d.Parts = append(d.Parts, plan.Part{S: s.Stmts[i], Sep: s.Seps[i], Tab: s.IsTable[i]})
	}
	return d
}
