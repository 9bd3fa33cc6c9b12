package main

// treeWalks: where a walk over the log entries asks for a child or the parent of one, there is one.
// Steps towards an entry that is not the current one are taken to exist: the direction is what counts,
// as that entry is inside the tree and below the current one.
func treeWalks(k *Checker) {
	const L, R, P = "math.Left", "math.Right", "math.Parent"
	const M = "(*algorithms.Monitor)."
	const hasRight = `arg0 != arg1 - 1 && !math.IsLeaf(arg0)`
	const hasLeft = `!math.IsLeaf(arg0)`
	k.when("algorithms.RightmostDistinguished", func(r *Run) {
		k.need("walk.child", r.calls(R), 1, `arg1 == p1 && arg0 != p1 - 1`)
	}, provider())
	k.when("algorithms.PreviousRightmost", func(r *Run) {
		k.need("walk.child", r.calls(L), 1, hasLeft)
		k.need("walk.child", r.calls(R), 1, `arg1 == p1 && `+hasRight)
		k.need("walk.child", r.calls(P), 1, `arg1 == p1 && arg0 != math.Root(p1)`)
	}, provider("algorithms.RightmostDistinguished"))
	k.when("algorithms.GreatestVersionSearch", func(r *Run) {
		k.need("walk.child", r.calls(R), 1, `arg1 == p2 && arg0 != p2 - 1`)
	}, provider("algorithms.RightmostDistinguished"))
	k.when("algorithms.FixedVersionSearch", func(r *Run) {
		k.need("walk.child", r.calls(L), 1, hasLeft)
		k.need("walk.child", r.calls(R), 2, `arg1 == p2 && `+hasRight)
	}, provider())
	toward := func(r *Run, target, size string) {
		k.need("walk.child", r.calls(L), 1, `arg0 > `+target)
		k.need("walk.child", r.calls(R), 1, `arg1 == `+size+` && arg0 < `+target)
	}
	for _, f := range []string{"distinguishedAncestor", "nonDistinguishedAncestor"} {
		k.when(M+f, func(r *Run) { toward(r, "p0", "recv.treeSize") }, provider())
	}
	k.when(M+"init", func(r *Run) {
		k.need("walk.child", r.calls(L), 1, `arg0 == p1 && p1 > p0 && `+hasLeft)
		k.need("walk.child", r.calls(R), 1, `arg1 == recv.treeSize && arg0 == p1 && p1 < p0 && `+hasRight)
	}, provider())
	k.when(M+"ownerMonitor", func(r *Run) {
		k.need("walk.child", r.calls(L), 1, `arg0 == p0 && `+hasLeft)
		k.need("walk.child", r.calls(R), 2, `arg1 == recv.treeSize && arg0 == p0 && `+hasRight)
	}, provider())
	k.when(M+"verifyPreviousTree", func(r *Run) {
		k.need("walk.child", r.calls(L), 1, `arg0 > p0 - 1`)
		k.need("walk.child", r.calls(R), 1, `arg1 == p0 && arg0 != p0 - 1`)
		k.need("walk.child", r.calls(P), 1, `arg1 == p0 && arg0 != math.Root(p0)`)
	}, provider(M+"nonDistinguishedAncestor"))

}
